"""Gated value-numbering over MIR.

For a function, a forward dataflow pass over its (interprocedurally inlined) control-flow graph
computes, for every exit and every call, (a) the gating condition as a canonical BDD over atomic
conditions on the inputs and (b) the values involved as hash-consed terms.  Joins are merged
(gated choices), loops are cut at their headers and summarised, recursion and unknown callees are
uninterpreted.  Nothing is executed and no solver is involved."""
import json, os, re, sys, math
from bdd import *
import bdd as B
sys.setrecursionlimit(200000)

# ------------------------------------------------------------------ terms
class Term:
    __slots__ = ('op', 'a', 'id', 'haslv', 'size')
    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __lt__(self, o): return self.id < o.id
_tab = {}
_terms = []
def T(op, *a):
    k = (op,) + tuple(('t', x.id) if isinstance(x, Term) else x for x in a)
    r = _tab.get(k)
    if r is None:
        r = Term(); r.op = op; r.a = a; r.id = len(_terms)
        r.haslv = op in ('lv', 'lvn') or any(isinstance(x, Term) and x.haslv for x in a)
        if op == 'choice' and not r.haslv:
            r.haslv = any(isinstance(x, int) and bdd_haslv(x) for x in a[0::2])
        if op in ('all', 'fold', 'cond', 'last') and not r.haslv:
            r.haslv = any(type(x) is int and bdd_haslv(x) for x in a)
        r.size = 1 + sum(x.size for x in a if isinstance(x, Term))
        _tab[k] = r; _terms.append(r)
    return r
I = lambda v: T('int', int(v))
UNIT = T('tup')
def is_int(t): return t.op == 'int'

OPT, RES = 'core::option::Option', 'core::result::Result'
def agg(adt, var, names, vals): return T('agg', adt, var, ','.join(names), *vals)
def Some(x): return agg(OPT, 'Some', ['0'], [x])
NONE = agg(OPT, 'None', [], [])
def Ok(x): return agg(RES, 'Ok', ['0'], [x])
def Err(x): return agg(RES, 'Err', ['0'], [x])

def show(t, d=0):
    if not isinstance(t, Term): return str(t)
    if d > 14: return '…'
    s = lambda x: show(x, d + 1)
    o, a = t.op, t.a
    if o == 'int': return str(a[0])
    if o == 'str': return json.dumps(a[0])
    if o == 'bytes': return 'x"' + a[0] + '"'
    if o == 'arg': return '$%s' % a[0]
    if o == 'fld': return '%s.%s%s' % (s(a[0]), (a[1] + '.') if a[1] else '', a[2])
    if o == 'agg':
        n = a[0].split('::')[-1]; v = a[1]; names = a[2].split(',') if a[2] else []
        return '%s%s{%s}' % (n, '::' + v if v != n else '', ', '.join('%s:%s' % (k, s(x)) for k, x in zip(names, a[3:])))
    if o == 'choice':
        return 'choice(' + ' | '.join('[%s] %s' % (showc(a[i], d + 1), s(a[i + 1])) for i in range(0, len(a), 2)) + ')'
    if o == 'call': return '%s(%s)' % (short(a[0]), ', '.join(s(x) for x in a[2:]))
    if o == 'lin':
        return '(' + linshow(a[0], [(a[i], a[i + 1]) for i in range(1, len(a), 2)], s) + ')'
    if o in ('le0', 'eq0') and a[0].op == 'lin':
        c = a[0].a[0]; ps = [(a[0].a[i], a[0].a[i + 1]) for i in range(1, len(a[0].a), 2)]
        l = [(t_, k) for t_, k in ps if k > 0]; r = [(t_, -k) for t_, k in ps if k < 0]
        return '(%s %s %s)' % (linshow(max(c, 0), l, s), '<=' if o == 'le0' else '==', linshow(max(-c, 0), r, s))
    if o == 'tup': return '(' + ', '.join(s(x) for x in a) + ')'
    if o == 'seq': return 'seq[' + ', '.join(s(x) for x in a) + ']'
    if o == 'all': return 'all(%s : %s)' % (s(a[0]), showc(a[1], d + 1))
    return '%s(%s)' % (o, ', '.join(s(x) for x in a))
def linshow(c, ps, s):
    out = [(s(t) if k == 1 else '%s*%s' % (k, s(t))) for t, k in ps]
    if c or not out: out.append(str(c))
    return '+'.join(out)
def short(p):
    p = re.sub(r'<([^<>]*) as ([^<>]*)>', lambda m: m.group(1).split('::')[-1] + '@' + m.group(2).split('::')[-1], p)
    return '::'.join(p.split('::')[-2:])

# ------------------------------------------------------------------ boolean atoms
ATOMS = []          # var index -> ('b', term) | ('bit', term, i)
_atomix = {}
WIDTH = {}
LEN = {}
HADLEN = set()      # values whose length has been used symbolically: never given a fixed one later
def _atom(k):
    r = _atomix.get(k)
    if r is None:
        r = len(ATOMS); ATOMS.append(k); _atomix[k] = r
    return r
_hl = {}
def bdd_haslv(f):
    if f < 2: return False
    r = _hl.get(f)
    if r is None:
        r = _hl[f] = any(ATOMS[v][1].haslv for v in B.support(f))
    return r
def bvar(t): return var(_atom(('b', t)))
def bit_eq(t, v, w):
    # allocate MSB first so that comparisons stay linear
    for i in range(w - 1, -1, -1): _atom(('bit', t, i))
    if v < 0 or v >= (1 << w): return 0
    r = 1
    for i in range(w):
        x = var(_atomix[('bit', t, i)])
        r = AND(r, x if (v >> i) & 1 else NOT(x))
    return r
def bit_of(t, i):
    """bit i of integer term t as a condition, or None"""
    if t.op == 'int': return (t.a[0] >> i) & 1
    if t.op == 'bitand':
        a, b = bit_of(t.a[0], i), bit_of(t.a[1], i)
        return None if a is None or b is None else AND(a, b)
    if t.op == 'bitor':
        a, b = bit_of(t.a[0], i), bit_of(t.a[1], i)
        return None if a is None or b is None else OR(a, b)
    if t.op == 'bitxor':
        a, b = bit_of(t.a[0], i), bit_of(t.a[1], i)
        return None if a is None or b is None else XOR(a, b)
    if t.op == 'shr' and is_int(t.a[1]): return bit_of(t.a[0], i + t.a[1].a[0]) if i + t.a[1].a[0] < width(t.a[0]) else 0
    if t.op == 'shl' and is_int(t.a[1]): return bit_of(t.a[0], i - t.a[1].a[0]) if i >= t.a[1].a[0] else 0
    if t.op == 'trunc': return bit_of(t.a[1], i) if i < t.a[0] else 0
    if t.op == 'choice':
        r = 0
        for j in range(0, len(t.a), 2):
            x = bit_of(t.a[j + 1], i)
            if x is None: return None
            r = OR(r, AND(t.a[j], x))
        return r
    if t.op in ('lin', 'mul'): return None
    w = width(t)
    if i >= w: return 0
    for j in range(w - 1, -1, -1): _atom(('bit', t, j))
    return var(_atomix[('bit', t, i)])
def bit_eqx(t, v, w):
    if t.op in ('bitand', 'bitor', 'bitxor', 'shr', 'shl', 'trunc'):
        r = 1
        if v < 0 or v >= (1 << w): return 0
        for i in range(w):
            b = bit_of(t, i)
            if b is None: return bit_eq(t, v, w)
            r = AND(r, b if (v >> i) & 1 else NOT(b))
        return r
    return bit_eq(t, v, w)
def bit_le(t, c, w):
    if t.op in ('bitand', 'bitor', 'bitxor', 'shr', 'shl', 'trunc') and 0 <= c < (1 << w) - 1:
        bs = [bit_of(t, i) for i in range(w)]
        if all(b is not None for b in bs):
            r = 1
            for i in range(w):
                r = ITE(bs[i], r if (c >> i) & 1 else 0, 1 if (c >> i) & 1 else r)
            return r
    for i in range(w - 1, -1, -1): _atom(('bit', t, i))
    if c < 0: return 0
    if c >= (1 << w) - 1: return 1
    r = 1
    for i in range(w):      # LSB..MSB
        x = var(_atomix[('bit', t, i)])
        r = ITE(x, r if (c >> i) & 1 else 0, 1 if (c >> i) & 1 else r)
    return r
def width(t):
    if t.op == 'len': return 64
    w = WIDTH.get(t)
    if w: return w
    if t.op == 'trunc': return t.a[0]
    return 64
def showc(f, d=0, lim=6):
    if f == 0: return 'false'
    if f == 1: return 'true'
    if d > 10: return '?'
    cubes = paths(f, lim + 1)
    if len(cubes) > 2:
        nc = paths(NOT(f), 3)
        if len(nc) <= 2: return 'NOT(%s)' % showc(NOT(f), d, lim)
    cubes = [small_cube(c, f) for c in cubes]
    out = []
    for c in cubes[:lim]:
        by = {}
        lits = []
        for v, val in c.items():
            k = ATOMS[v]
            if k[0] == 'b': lits.append(('' if val else '!') + show(k[1], d + 1))
            else: by.setdefault(k[1], {})[k[2]] = val
        for t, bits in by.items():
            w = width(t)
            pat = ''.join(str(bits.get(i, '-')) for i in range(w - 1, -1, -1))
            pat = re.sub(r'^([01-])\1{7,}', lambda m: m.group(1) + '*', pat)
            if '-' not in pat and '*' not in pat: pat = str(int(pat, 2))
            nm = variant_name(t, pat)
            lits.append('%s=%s' % (show(t, d + 1), nm or pat))
        out.append(' & '.join(lits))
    if len(cubes) > lim: out.append('...')
    return ' OR '.join(out)
def small_cube(c, f):
    """drop literals that are not needed for the cube to lie within f"""
    if len(c) > 60: return c
    r = dict(c); nf = NOT(f)
    # group the bits of one term
    groups = {}
    for v in c: groups.setdefault((ATOMS[v][0], ATOMS[v][1]), []).append(v)
    def cube(d):
        x = 1
        for v in sorted(d, reverse=True): x = AND(var(v) if d[v] else NOT(var(v)), x)
        return x
    for g, vs in groups.items():
        t = {v: b for v, b in r.items() if v not in vs}
        if AND(cube(t), nf) == 0: r = t
    return r
def variant_name(t, pat):
    if t.op == 'discr' and pat.isdigit() and t in DISCR_ADT:
        for v in DISCR_ADT[t]['variants']:
            if v[1] == int(pat): return v[0]
DISCR_ADT = {}

# ------------------------------------------------------------------ linear integer forms
def lin_of(t):
    if t.op == 'int': return (t.a[0], {})
    if t.op == 'lin': return (t.a[0], {t.a[i]: t.a[i + 1] for i in range(1, len(t.a), 2)})
    return (0, {t: 1})
def lin_mk(c, m):
    m = {k: v for k, v in m.items() if v}
    if not m: return I(c)
    if c == 0 and len(m) == 1:
        (k, v), = m.items()
        if v == 1: return k
    a = [c]
    for k in sorted(m, key=lambda x: x.id): a += [k, m[k]]
    return T('lin', *a)
def lin_add(a, b, s=1):
    ca, ma = lin_of(a); cb, mb = lin_of(b)
    m = dict(ma)
    for k, v in mb.items(): m[k] = m.get(k, 0) + s * v
    return lin_mk(ca + s * cb, m)
def add(a, b): return lin_add(a, b)
def sub(a, b): return lin_add(a, b, -1)
def mul(a, b):
    if is_int(b): a, b = b, a
    if is_int(a):
        c, m = lin_of(b); k = a.a[0]
        return lin_mk(c * k, {x: v * k for x, v in m.items()})
    if b.id < a.id: a, b = b, a
    return T('mul', a, b)

def c_le(a, b):
    """condition a <= b over (mathematical) integers"""
    ch = dist2(a, b, c_le)
    if ch is not None: return ch
    c, m = lin_of(sub(a, b))          # c + m <= 0
    if not m: return 1 if c <= 0 else 0
    for t, k in m.items():
        if t.op == 'cond' or t.op == 'choice' and len(t.a) <= 16:
            rest = {x: v for x, v in m.items() if x is not t}
            return ORS(*[AND(cc, c_le(add(lin_mk(c, rest), mul(I(k), x)), I(0))) for cc, x in alts(t)])
    if c <= 0 and all(k <= 0 for k in m.values()): return 1       # unsigned atoms
    if c > 0 and all(k >= 0 for k in m.values()): return 0
    if c == 0 and all(k > 0 for k in m.values()) and len(m) > 1: return ANDS(*[c_le(t, I(0)) for t in m])
    if c == 1 and all(k < 0 for k in m.values()) and len(m) > 1: return NOT(ANDS(*[c_le(t, I(0)) for t in m]))
    if len(m) == 1:
        (t, k), = m.items()
        w = width(t)
        if k > 0: return bit_le(t, (-c) // k, w)
        # -|k| t + c <= 0  <=>  t >= ceil(c/|k|)
        k = -k
        return NOT(bit_le(t, -((-c) // k) - 1, w))
    first = min(m, key=lambda x: x.id)
    if m[first] > 0: return lin_atom(c, m)
    # -m - c >= 0 ... with negated coefficients: n = -m ; c - n <= 0 <=> n >= c <=> not(n <= c-1) <=> not(n - (c-1) <= 0)
    return NOT(lin_atom(-(c - 1), {k: -v for k, v in m.items()}))
def lin_atom(c, m):
    # c + m <= 0 with positive leading coefficient
    d = T('le0', lin_mk(c, m))
    # special: loop guard idx < len
    ks = list(m.items())
    if c == 1 and len(ks) == 2:
        d2 = dict(m)
        for t, k in ks:
            if t.op == 'idx' and k == 1:
                o = [x for x, kk in ks if x is not t and kk == -1]
                if o and o[0] is length(t.a[0]): return hasnext(t.a[0])
    if c == 0 and len(ks) == 2:
        # leading positive is len, idx negative: len - idx <= 0  <=> not hasnext
        for t, k in ks:
            if t.op == 'idx' and k == -1:
                o = [x for x, kk in ks if x is not t and kk == 1]
                if o and o[0] is length(t.a[0]): return NOT(hasnext(t.a[0]))
    return bvar(d)
def c_eq0(c, m):
    d = lin_mk(c, m)
    return AND(c_le(d, I(0)), c_le(I(0), d))
def c_lt(a, b): return c_le(add(a, I(1)), b)
def hasnext(x): return bvar(T('hasnext', x))
def elem(x):
    if x.op == 'enum': return T('tup', T('idx', x.a[0]), elem(x.a[0]))
    if x.op == 'zip': return T('tup', elem(x.a[0]), elem(x.a[1]))
    return T('elem', x)
def dist2(a, b, f):
    if a.op == 'choice':
        return ORS(*[AND(a.a[i], f(a.a[i + 1], b)) for i in range(0, len(a.a), 2)])
    if b.op == 'choice':
        return ORS(*[AND(b.a[i], f(a, b.a[i + 1])) for i in range(0, len(b.a), 2)])
    return None
CONSTSEQ = {'bytes', 'arr'}
INTISH = {'lin', 'int', 'len', 'trunc', 'idx', 'mul'}
def c_eq(a, b):
    if a is b: return 1
    if a.op == 'fold' and len(a.a) > 0: pass
    ch = dist2(a, b, c_eq)
    if ch is not None: return ch
    if a.op == 'agg' or b.op == 'agg':
        if a.op == 'agg' and b.op == 'agg':
            if a.a[1] != b.a[1]: return 0
            return ANDS(*[c_eq(x, y) for x, y in zip(a.a[3:], b.a[3:])])
        if a.op != 'agg': a, b = b, a
        adt = DBG.adts.get(a.a[0])
        if adt and adt['kind'] == 'enum':
            c = c_is(b, a.a[0], a.a[1])
            if c == 0: return 0
            names = a.a[2].split(',') if a.a[2] else []
            return ANDS(c, *[c_eq(x, proj(b, ('f', a.a[1], n))) for n, x in zip(names, a.a[3:])])
        names = a.a[2].split(',') if a.a[2] else []
        return ANDS(*[c_eq(x, proj(b, ('f', None, n))) for n, x in zip(names, a.a[3:])])
    if a.op == 'tup' and b.op == 'tup' and len(a.a) == len(b.a):
        return ANDS(*[c_eq(x, y) for x, y in zip(a.a, b.a)])
    if a.op in ('str', 'bytes') and b.op in ('str', 'bytes'):
        def norm(t): return t.a[0].encode().hex() if t.op == 'str' else t.a[0]
        return 1 if norm(a) == norm(b) else 0
    if a.op in CONSTSEQ or b.op in CONSTSEQ:
        k, o = (a, b) if a.op in CONSTSEQ else (b, a)
        n = len(k.a[0]) // 2 if k.op == 'bytes' else len(k.a)
        if n <= 64 and o.op != 'str':
            lc = c_eq(length(o), I(n))
            if lc == 0: return 0
            if k.op == 'bytes': return ANDS(lc, *[c_eqint(proj(o, ('i', I(i))), int(k.a[0][2 * i:2 * i + 2], 16), 8) for i in range(n)])
            return ANDS(lc, *[c_eqint(proj(o, ('i', I(i))), x.a[0], 8) if x.op == 'int' and 0 <= x.a[0] < 256 else c_eq(proj(o, ('i', I(i))), x) for i, x in enumerate(k.a)])
    if a.op in INTISH or b.op in INTISH:
        c, m = lin_of(sub(a, b))
        if not m: return 1 if c == 0 else 0
        if len(m) == 1:
            (t, k), = m.items()
            if (-c) % k: return 0
            if t.op == 'len' and t.a[0].op not in ('lv',) and -c // k == 0 and False: pass
            return bit_eqx(t, -c // k, width(t))
        return c_eq0(c, m)
    if b.id < a.id: a, b = b, a
    return bvar(T('eq', a, b))

BOOLOPS = {'not', 'cond'}
def cond(t):
    """BDD of a boolean term"""
    if t.op == 'int': return 1 if t.a[0] else 0
    if t.op == 'cond': return t.a[0]
    if t.op == 'choice':
        return ORS(*[AND(t.a[i], cond(t.a[i + 1])) for i in range(0, len(t.a), 2)])
    return bvar(t)
def Bt(f):
    return I(f) if f < 2 else T('cond', f)

def choice(alts):
    """alts: list of (bdd, term); conditions disjoint and covering (relative)"""
    m = {}
    def put(c, t):
        if c == 0: return
        if t.op == 'choice':
            for i in range(0, len(t.a), 2): put(AND(c, t.a[i]), t.a[i + 1])
        elif t.op == 'cond':
            put(AND(c, t.a[0]), I(1)); put(AND(c, NOT(t.a[0])), I(0))
        else: m[t] = OR(m.get(t, 0), c)
    for c, t in alts: put(c, t)
    if not m: return T('never')
    if len(m) == 1: return next(iter(m))
    ts = sorted(m, key=lambda x: x.id)
    if len(ts) == 2 and {x.op for x in ts} == {'int'} and {x.a[0] for x in ts} == {0, 1} and OR(m[ts[0]], m[ts[1]]) == 1:
        return Bt(m[[x for x in ts if x.a[0] == 1][0]])
    if len(ts) > 700: return T('big', *ts[:4])
    a = []
    for t in ts: a += [m[t], t]
    return T('choice', *a)
_refine = {}
def refine(t, c, d=0):
    """drop the alternatives of t that are impossible under c"""
    if c < 2 or not hasattr(t, 'op'): return t
    o = t.op
    if o == 'choice':
        k = (t.id, c)
        r = _refine.get(k)
        if r is not None: return r
        keep = [(t.a[i], t.a[i + 1]) for i in range(0, len(t.a), 2) if AND(t.a[i], c) != 0]
        if len(keep) == len(t.a) // 2: r = t
        elif not keep: r = T('never')
        else:
            tot = ORS(*[x for x, _ in keep])
            r = choice([(constrain(x, tot), v) for x, v in keep])
        if d < 4 and r.op != 'choice': r = refine(r, c, d + 1)
        _refine[k] = r
        return r
    if o == 'cond' and d == 0:
        if AND(t.a[0], c) == 0: return I(0)
        if AND(NOT(t.a[0]), c) == 0: return I(1)
        return t
    if d < 4 and o in ('agg', 'tup', 'upd', 'clo', 'coro', 'seq', 'e', 's', 'arr') and any(isinstance(x, Term) and x.op in REFINABLE for x in t.a):
        k = (t.id, c)
        r = _refine.get(k)
        if r is not None: return r
        na = tuple(refine(x, c, d + 1) if isinstance(x, Term) else x for x in t.a)
        r = t if all(x is y for x, y in zip(na, t.a)) else (mkseq(na) if o == 'seq' else T(o, *na))
        _refine[k] = r
        return r
    return t
REFINABLE = {'choice', 'agg', 'tup', 'upd', 'clo', 'seq', 'e', 's', 'cond', 'coro'}
def alts(t):
    if t.op == 'choice': return [(t.a[i], t.a[i + 1]) for i in range(0, len(t.a), 2)]
    if t.op == 'cond': return [(t.a[0], I(1)), (NOT(t.a[0]), I(0))]
    return [(1, t)]
def lift(t, f): return choice([(c, f(x)) for c, x in alts(t)]) if t.op == 'choice' else f(t)

# ------------------------------------------------------------------ values
def setlen(t, n):
    if t not in HADLEN: LEN.setdefault(t, n)
def length(t):
    if t.op == 'choice': return lift(t, length)
    if t.op == 'str': return I(len(t.a[0].encode()))
    if t.op == 'bytes': return I(len(t.a[0]) // 2)
    if t.op == 'arr': return I(len(t.a))
    if t.op == 'rep': return t.a[1]
    if t.op == 'seq':
        r = I(0)
        for p in t.a: r = add(r, I(1) if p.op == 'e' else length(p.a[0]))
        return r
    if t.op == 'slice': return sub(t.a[2], t.a[1])
    if t.op == 'upd': return length(t.a[0])
    if t.op in ('iter', 'enum'): return length(t.a[0])
    if t.op in ('be', 'lebytes'): return I(t.a[0] // 8)
    if t in LEN: return I(LEN[t])
    if t.op == 'fold' and keeps_length(t.a[2]): return length(t.a[1])
    if t.op == 'elem' and t.a[0].op == 'chunks' and len(t.a[0].a) == 3 and t.a[0].a[2].a[0] in ('windows', 'exact'): return t.a[0].a[1]
    HADLEN.add(t)
    return T('len', t)
def keeps_length(b):
    """a step that only overwrites parts of the accumulated sequence"""
    if b.op == 'choice': return all(keeps_length(x) for _, x in alts(b))
    while b.op == 'upd' and b.a[1] in ('sl', 'i'): b = b.a[0]
    return b.op == 'acc'

def bytes_of(t, d=0):
    """big-endian byte list [(weight_exponent, byte term)] of an integer expression, or None"""
    if d > 8: return None
    if t.op == 'unbe':
        n = t.a[0] // 8
        return [(n - 1 - i, proj(t.a[1], ('i', I(i)))) for i in range(n)]
    if t.op == 'int': return [] if t.a[0] == 0 else None
    if t.op in ('shl',) and is_int(t.a[1]) and t.a[1].a[0] % 8 == 0:
        b = bytes_of(t.a[0], d + 1)
        return None if b is None else [(w + t.a[1].a[0] // 8, x) for w, x in b]
    if t.op in ('bitor',):
        a, b = bytes_of(t.a[0], d + 1), bytes_of(t.a[1], d + 1)
        return None if a is None or b is None else a + b
    if t.op == 'lin':
        if t.a[0] != 0: return None
        out = []
        for i in range(1, len(t.a), 2):
            k = t.a[i + 1]
            if k <= 0 or k & (k - 1) or (k.bit_length() - 1) % 8: return None
            b = bytes_of(t.a[i], d + 1)
            if b is None: return None
            out += [(w + (k.bit_length() - 1) // 8, x) for w, x in b]
        return out
    if WIDTH.get(t, 64) == 8: return [(0, t)]
    return None
def mk_unbe(w, v):
    if v.op == 'be' and v.a[0] == w: return v.a[1]
    if v.op in ('bytes', 'arr', 'seq') and is_int(length(v)) and length(v).a[0] == w // 8:
        xs = [proj(v, ('i', I(i))) for i in range(w // 8)]
        if all(is_int(x) for x in xs):
            r = 0
            for x in xs: r = r * 256 + x.a[0]
            return I(r)
        k = 0
        while k < len(xs) and is_int(xs[k]) and xs[k].a[0] == 0: k += 1
        if k and k < len(xs):
            return from_bytes([(len(xs) - 1 - i, x) for i, x in enumerate(xs) if i >= k]) or T('unbe', w, v)
        r = from_bytes([(len(xs) - 1 - i, x) for i, x in enumerate(xs)])
        if r is not None: return r
    r = T('unbe', w, v); WIDTH.setdefault(r, w)
    return r
def from_bytes(bl):
    """canonical unbe from a byte list if the bytes are consecutive in one buffer"""
    bl = sorted(bl, key=lambda x: -x[0])
    n = len(bl)
    if n >= 2 and all(x.op == 'bebyte' and x.a[0] is bl[0][1].a[0] and x.a[1] == n - 1 - i for i, (_, x) in enumerate(bl)) and [w for w, _ in bl] == list(range(n - 1, -1, -1)):
        return trunc(bl[0][1].a[0], 8 * n)
    if n < 2 or [w for w, _ in bl] != list(range(n - 1, -1, -1)): return None
    xs = [x for _, x in bl]
    if not all(x.op == 'index' and x.a[0] is xs[0].a[0] for x in xs): return None
    base, i0 = xs[0].a
    for k, x in enumerate(xs):
        if x.a[1] is not add(i0, I(k)): return None
    r = T('unbe', 8 * n, mkslice(base, i0, add(i0, I(n)))); WIDTH.setdefault(r, 8 * n)
    return r
def int_canon(r):
    """recognise assembled big-endian integers"""
    if r.op in ('bitor', 'lin'):
        b = bytes_of(r)
        if b and len(b) > 1:
            x = from_bytes(b)
            if x is not None: return x
    return r
def byte_at(t):
    """(x, k) if t is byte k (0 = least significant) of integer x"""
    if t.op == 'trunc' and t.a[0] == 8:
        x = t.a[1]; k = 0
        if x.op == 'trunc': x = x.a[1]
        if x.op == 'shr' and is_int(x.a[1]) and x.a[1].a[0] % 8 == 0: k = x.a[1].a[0] // 8; x = x.a[0]
        return x, k
    if t.op == 'bebyte': return t.a[0], t.a[1]
    if t.op == 'shr' and is_int(t.a[1]) and t.a[1].a[0] % 8 == 0 and width(t) - t.a[1].a[0] == 8: return t.a[0], t.a[1].a[0] // 8
    if WIDTH.get(t, 64) == 8 and t.op not in ('int', 'index'): return t, 0
    return None
def byte_of(t):
    """like byte_at, for a term standing where a byte is: what was assumed to fit needs no truncation"""
    b = byte_at(t)
    if b or FIT is None: return b
    if t.op == 'shr' and is_int(t.a[1]) and t.a[1].a[0] % 8 == 0 and FIT(t): return t.a[0], t.a[1].a[0] // 8
    if t.op not in ('int', 'index') and FIT(t): return t, 0
    return None
def join_bytes(parts):
    out = []; i = 0
    while i < len(parts):
        p = parts[i]
        b = byte_of(p.a[0]) if p.op == 'e' else None
        if b and b[1] > 0:
            n = b[1] + 1; ok = i + n <= len(parts)
            if ok:
                for j in range(1, n):
                    q = parts[i + j]
                    bb = byte_of(q.a[0]) if q.op == 'e' else None
                    if not bb or bb[1] != n - 1 - j or untr(bb[0]) is not untr(b[0]): ok = False; break
            if ok:
                out.append(T('s', mk_be(8 * n, b[0] if b[0].op == 'lin' else trunc(b[0], 8 * n)))); i += n; continue
        out.append(p); i += 1
    return out
def untr(t):
    return t
def mk_be(w, v):
    if v.op == 'int': return T('bytes', '%0*x' % (w // 4, v.a[0] & ((1 << w) - 1)))
    if v.op == 'unbe' and v.a[0] == w: return v.a[1]
    if v.op == 'trunc' and v.a[0] == w: return T('be', w, v)
    return T('be', w, v)
def mkseq(parts):
    out = []
    if any(p.op == 'e' and byte_of(p.a[0]) for p in parts): parts = join_bytes(parts)
    for p in parts:
        if p.op == 's':
            x = p.a[0]
            if x.op == 'seq': out += list(x.a); continue
            if x.op == 'bytes':
                if not x.a[0]: continue
                # single bytes as elements, for canonicity
                out += [T('e', I(int(x.a[0][i:i + 2], 16))) for i in range(0, len(x.a[0]), 2)] if len(x.a[0]) <= 64 else [p]; continue
            if x.op == 'str' and x.a[0] == '': continue
            if x.op == 'arr': out += [T('e', y) for y in x.a]; continue
            if x.op == 'rep' and is_int(x.a[1]) and x.a[1].a[0] == 0: continue
        out.append(p)
    return T('seq', *out)
def as_seq(t):
    if t.op == 'seq': return list(t.a)
    return [T('s', t)]

def proj(t, e):
    if t.op == 'uninit': return t
    """e: ('f', variant|None, name) | ('i', term) | ('ci', n, fromend) | ('ss', a, b, fromend) | ('sl', a, b)"""
    o = t.op
    if o == 'choice':
        al = alts(t)
        if e[0] == 'f' and e[1] is not None:
            sel = [(c, x) for c, x in al if not (x.op == 'agg' and x.a[1] != e[1])]
            if sel and len(sel) != len(al):
                tot = ORS(*[c for c, _ in sel])
                al = [(constrain(c, tot), x) for c, x in sel]
        return choice([(c, proj(x, e)) for c, x in al])
    if e[0] == 'f':
        _, v, n = e
        if o == 'agg':
            if v is not None and t.a[1] != v: return T('never')
            names = t.a[2].split(',') if t.a[2] else []
            if n in names: return t.a[3 + names.index(n)]
            if n.isdigit() and int(n) < len(names): return t.a[3 + int(n)]
        if o in ('tup', ) and n.isdigit() and int(n) < len(t.a): return t.a[int(n)]
        if o in ('clo', 'coro') and n.isdigit() and 2 + int(n) < len(t.a): return t.a[2 + int(n)]
        if o == 'upd':
            if t.a[1] == 'f':
                if (t.a[2] or None) == v and t.a[3] == n: return t.a[4]
                return proj(t.a[0], e)
        if o == 'fold':
            r = fold_field(t, e)
            if r is not None: return r
        if o == 'branch':
            x = t.a[0]
            if v == 'Continue': return T('okval', x)
            if v == 'Break': return T('resid', x)
        r = T('fld', t, v or '', n)
        return r
    if e[0] == 'ci':
        i = I(e[1]) if not e[2] else sub(length(t), I(e[1]))
        return proj(t, ('i', i))
    if e[0] == 'ss':
        hi = I(e[2]) if not e[3] else sub(length(t), I(e[2]))
        return mkslice(t, I(e[1]), hi)
    if e[0] == 'sl': return mkslice(t, e[1], e[2])
    if e[0] == 'i':
        i = e[1]
        if is_int(i) and i.a[0] < 0 and o in ('arr', 'bytes', 'seq', 'be', 'slice'): return T('never')
        if o == 'arr' and is_int(i) and 0 <= i.a[0] < len(t.a): return t.a[i.a[0]]
        if o == 'rep': return t.a[0]
        if o == 'bytes' and is_int(i) and i.a[0] < len(t.a[0]) // 2: return I(int(t.a[0][2 * i.a[0]:2 * i.a[0] + 2], 16))
        if o == 'slice': return proj(t.a[0], ('i', add(t.a[1], i)))
        if o == 'be' and is_int(i) and i.a[0] < t.a[0] // 8:
            k = t.a[0] // 8 - 1 - i.a[0]
            if t.a[0] == 8: return t.a[1]
            r = T('bebyte', t.a[1], k); WIDTH.setdefault(r, 8); return r
        if o == 'upd' and t.a[1] == 'i':
            if t.a[2] is i: return t.a[3]
            if is_int(i) and is_int(t.a[2]): return proj(t.a[0], e)
        if o == 'seq':
            n = i
            for p in t.a:
                if p.op == 'e':
                    if is_int(n) and n.a[0] == 0: return p.a[0]
                    n = sub(n, I(1))
                else:
                    L = length(p.a[0])
                    if is_int(n):
                        if not is_int(L): break
                        if 0 <= n.a[0] < L.a[0]: return proj(p.a[0], ('i', n))
                    n = sub(n, L)
                if is_int(n) and n.a[0] < 0: break
        if i.op == 'idx' and i.a[0] is t: return elem(t)
        return T('index', t, i)
    return T('px', t)
def mkslice(t, a, b):
    if is_int(a) and a.a[0] == 0 and b is length(t): return t
    if t.op == 'slice': return mkslice(t.a[0], add(t.a[1], a), add(t.a[1], b))
    if is_int(a) and is_int(b):
        if t.op == 'bytes': return T('bytes', t.a[0][2 * a.a[0]:2 * b.a[0]])
        if t.op == 'seq' and all(p.op == 'e' for p in t.a): return mkseq(t.a[a.a[0]:b.a[0]])
        if t.op == 'arr': return T('arr', *t.a[a.a[0]:b.a[0]])
        if t.op == 'be' and b.a[0] == t.a[0] // 8 and a.a[0] < b.a[0]: return mk_be(t.a[0] - 8 * a.a[0], t.a[1])
    if t.op == 'seq':
        r = seq_slice(t, a, b)
        if r is not None: return r
    if t.op == 'choice': return choice([(c, mkslice(x, refine(a, c), refine(b, c))) for c, x in alts(t)])
    if t.op == 'upd' and t.a[1] == 'sl' and a.op != 'choice' and b.op != 'choice' and t.a[2].op != 'choice' and t.a[3].op != 'choice':
        lo, hi = t.a[2], t.a[3]
        if lo is a and hi is b: return t.a[4]
        if c_le(b, lo) == 1 or c_le(hi, a) == 1: return mkslice(t.a[0], a, b)
        if c_le(lo, a) == 1 and c_le(b, hi) == 1: return mkslice(t.a[4], sub(a, lo), sub(b, lo))
    return T('slice', t, a, b)
def unseq(t): return t.a[0].a[0] if t.op == 'seq' and len(t.a) == 1 and t.a[0].op == 's' else t
def seq_slice(t, a, b):
    if a.op == 'choice' or b.op == 'choice': return None
    ps = t.a; pre = [I(0)]
    for p in ps: pre.append(add(pre[-1], I(1) if p.op == 'e' else length(p.a[0])))
    i = next((k for k in range(len(pre)) if pre[k] is a), None)
    j = next((k for k in range(len(pre) - 1, -1, -1) if pre[k] is b), None)
    if i is not None and j is not None and i <= j: return unseq(mkseq(ps[i:j]))
    # trim the parts that lie outside for certain
    lo = max([k for k in range(len(pre)) if c_le(pre[k], a) == 1] or [0])
    hi = min([k for k in range(len(pre)) if c_le(b, pre[k]) == 1] or [len(ps)])
    if lo < hi and (lo > 0 or hi < len(ps)):
        q = unseq(mkseq(ps[lo:hi]))
        return mkslice(q, sub(a, pre[lo]), sub(b, pre[lo]))
    return None
def fold_field(t, e):
    """one field of a structure that a loop rewrites field by field"""
    X, init, step = t.a
    if step.op != 'upd' or step.a[1] != 'f': return None
    acc = T('acc'); mine = T('fld', acc, e[1] or '', e[2])
    new = proj(step, e)
    if new is mine: return proj(init, e)
    if contains(new, lambda x: x.op == 'fold'): return None
    hole = T('acchole')
    new = subst(new, {mine: hole, 'all': 1}, {})
    if contains(new, lambda x: x is acc): return None
    return mk_fold(X, proj(init, e), subst(new, {hole: acc, 'all': 1}, {}))
def update(t, path, val):
    if t.op == 'uninit': return val
    if not path: return val
    if t.op == 'choice' and path[0][0] in ('i', 'sl'):
        return choice([(c, update(x, path, refine(val, c))) for c, x in alts(t)])
    e, rest = path[0], path[1:]
    new = update(proj(t, e), rest, val) if rest else val
    if e[0] == 'f':
        if t.op == 'agg' and (e[1] is None or e[1] == t.a[1]):
            names = t.a[2].split(',') if t.a[2] else []
            if e[2] in names:
                vals = list(t.a[3:]); vals[names.index(e[2])] = new
                return T('agg', t.a[0], t.a[1], t.a[2], *vals)
        if t.op == 'tup' and e[2].isdigit() and int(e[2]) < len(t.a):
            vals = list(t.a); vals[int(e[2])] = new
            return T('tup', *vals)
        if t.op in ('clo', 'coro') and e[2].isdigit() and 2 + int(e[2]) < len(t.a):
            vals = list(t.a); vals[2 + int(e[2])] = new
            return T(t.op, *vals)
        # canonical order of updates on an opaque base
        if t.op == 'upd' and t.a[1] == 'f':
            if (t.a[2], t.a[3]) == (e[1] or '', e[2]): return update(t.a[0], [e], new)
            if (t.a[2], t.a[3]) > (e[1] or '', e[2]):
                return T('upd', update(t.a[0], [e], new), *t.a[1:])
        if new is proj(t, e): return t
        return T('upd', t, 'f', e[1] or '', e[2], new)
    if e[0] == 'ci': e = ('i', I(e[1]) if not e[2] else sub(length(t), I(e[1])))
    if e[0] == 'i':
        if t.op == 'arr' and is_int(e[1]) and e[1].a[0] < len(t.a):
            v = list(t.a); v[e[1].a[0]] = new; return T('arr', *v)
        if t.op == 'rep' and is_int(t.a[1]) and is_int(e[1]) and t.a[1].a[0] <= 64 and e[1].a[0] < t.a[1].a[0]:
            v = [t.a[0]] * t.a[1].a[0]; v[e[1].a[0]] = new; return T('arr', *v)
        if t.op == 'seq':
            pos = I(0)
            for k, p in enumerate(t.a):
                if pos is e[1] and p.op == 'e': return mkseq(list(t.a[:k]) + [T('e', new)] + list(t.a[k + 1:]))
                pos = add(pos, I(1) if p.op == 'e' else length(p.a[0]))
        return T('upd', t, 'i', e[1], new)
    if e[0] == 'ss':
        e = ('sl', I(e[1]), I(e[2]) if not e[3] else sub(length(t), I(e[2])))
    if e[0] == 'sl':
        if is_int(e[1]) and e[1].a[0] == 0 and e[2] is length(t): return new
        if t.op in ('arr', 'rep') and is_int(e[1]) and is_int(e[2]) and is_int(length(t)) and length(t).a[0] <= 64:
            base = list(t.a) if t.op == 'arr' else [t.a[0]] * t.a[1].a[0]
            for j in range(e[1].a[0], e[2].a[0]): base[j] = proj(new, ('i', I(j - e[1].a[0])))
            return T('arr', *base)
        if t.op == 'seq':
            pre = [I(0)]
            for p in t.a: pre.append(add(pre[-1], I(1) if p.op == 'e' else length(p.a[0])))
            i = next((k for k in range(len(pre)) if pre[k] is e[1]), None)
            j = next((k for k in range(len(pre) - 1, -1, -1) if pre[k] is e[2]), None)
            if i is not None and j is not None and i <= j: return mkseq(list(t.a[:i]) + as_seq(new) + list(t.a[j:]))
        return T('upd', t, 'sl', e[1], e[2], new)
    return T('upd', t, 'x', new)

# enum tests
def c_is(t, adt, vname):
    """condition: enum term t is of variant vname"""
    if t.op == 'choice': return ORS(*[AND(c, c_is(x, adt, vname)) for c, x in alts(t)])
    if t.op == 'agg': return 1 if t.a[1] == vname else 0
    if t.op == 'upd' and t.a[1] == 'f': return c_is(t.a[0], adt, vname)
    a = DBG.adts.get(adt)
    if not a: return bvar(T('is', t, adt, vname))
    for v in a['variants']:
        if v[0] == vname: return c_eq_discr(t, a, v[1])
    return 0
def discr_term(t, a):
    while t.op == 'upd' and t.a[1] == 'f': t = t.a[0]      # replacing a field keeps the variant
    d = T('discr', t)
    DISCR_ADT[d] = a
    mx = max([v[1] for v in a['variants']] + [1])
    WIDTH[d] = max(1, mx.bit_length()) if mx < (1 << 64) else 128
    return d
def c_eq_discr(t, a, v):
    if t.op == 'eff' and False: pass
    d = discr_term(t, a)
    return bit_eq(d, v, WIDTH[d])
def is_some(t): return c_is(t, OPT, 'Some')
def is_ok(t): return c_is(t, RES, 'Ok')
def valid(f):
    """care set: discriminants in range, for the atoms of f"""
    r = 1
    for v in B.support(f):
        k = ATOMS[v]
        if k[0] == 'bit' and k[1].op == 'discr' and k[1] in DISCR_ADT:
            d = k[1]; vs = [x[1] for x in DISCR_ADT[d]['variants']]
            if len(vs) < (1 << WIDTH[d]) and len(vs) <= 64:
                r = AND(r, ORS(*[bit_eq(d, x, WIDTH[d]) for x in vs]))
    # thresholds on the same linear form are ordered
    g = {}
    for v in B.support(f):
        k = ATOMS[v]
        if k[0] == 'b' and k[1].op == 'le0':
            c, m = lin_of(k[1].a[0])
            g.setdefault(tuple(sorted((t.id, x) for t, x in m.items())), []).append((-c, v))
    for xs in g.values():
        xs.sort()
        for (_, a), (_, b) in zip(xs, xs[1:]): r = AND(r, OR(NOT(var(a)), var(b)))
    # an integer read from a buffer and the bytes it was read from
    by = {}
    for v in B.support(f):
        k = ATOMS[v]
        if k[0] == 'bit': by.setdefault(k[1], {})[k[2]] = v
    for t, bits in by.items():
        if t.op != 'unbe' or t.a[0] % 8: continue
        x, lo = (t.a[1].a[0], t.a[1].a[1]) if t.a[1].op == 'slice' else (t.a[1], I(0))
        for t2, b2 in by.items():
            if t2.op != 'index' or t2.a[0] is not x: continue
            d = sub(t2.a[1], lo)
            if not is_int(d) or not 0 <= d.a[0] < t.a[0] // 8: continue
            sh = 8 * (t.a[0] // 8 - 1 - d.a[0])
            for i, v2 in b2.items():
                if i + sh in bits: a, b = var(v2), var(bits[i + sh]); r = AND(r, OR(AND(a, b), AND(NOT(a), NOT(b))))
    return r

_dvalid = {}
def canon(f):
    """give discriminant codes that no variant has the value of the first variant, so that equal predicates are identical"""
    if f in (0, 1): return f
    ds = []
    for v in B.support(f):
        k = ATOMS[v]
        if k[0] == 'bit' and k[1].op == 'discr' and k[1] in DISCR_ADT and k[1] not in ds: ds.append(k[1])
    for d in ds:
        vs = [x[1] for x in DISCR_ADT[d]['variants']]; w = WIDTH[d]
        if len(vs) >= (1 << w): continue
        dk = (d, DISCR_ADT[d]['path'])
        if dk not in _dvalid: _dvalid[dk] = ORS(*[bit_eq(d, x, w) for x in vs])
        c = _dvalid[dk]
        f0 = constrain(f, bit_eq(d, vs[0], w))
        f = OR(AND(c, f), AND(NOT(c), f0))
    return f

def somev(t): return proj(t, ('f', 'Some', '0'))
def okv(t): return proj(t, ('f', 'Ok', '0'))
def errv(t): return proj(t, ('f', 'Err', '0'))

# ------------------------------------------------------------------ substitution
def subst(t, m, memo=None):
    if not t.haslv and not m.get('all'): return t
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    if t in m: r = m[t]
    elif t.op == 'choice': r = choice([(subst_c(c, m, memo), subst(x, m, memo)) for c, x in alts(t)])
    elif t.op == 'cond': r = Bt(subst_c(t.a[0], m, memo))
    else:
        na = tuple(subst(x, m, memo) if isinstance(x, Term) else x for x in t.a)
        if t.op == 'all' : na = (na[0], subst_c(t.a[1], m, memo))
        r = rebuild(t, na)
    memo[t] = r
    return r
def rebuild(t, na):
    if all(x is y or x == y for x, y in zip(na, t.a)) and len(na) == len(t.a): return t
    o = t.op
    if o == 'fld': return proj(na[0], ('f', na[1] or None, na[2]))
    if o == 'index': return proj(na[0], ('i', na[1]))
    if o == 'slice': return mkslice(*na)
    if o == 'len': return length(na[0])
    if o == 'seq': return mkseq(na)
    if o == 'lin':
        r = I(na[0])
        for i in range(1, len(na), 2): r = add(r, mul(I(na[i + 1]), na[i]))
        return r
    if o == 'elem': return elem(na[0])
    if o == 'unbe': return mk_unbe(*na)
    if o == 'be': return mk_be(*na)
    if o == 'fold': return mk_fold(*na)
    if o == 'trunc': return trunc(na[1], na[0])
    if o == 'discr' and t in DISCR_ADT:
        a = DISCR_ADT[t]
        def dv(x):
            if x.op == 'agg' and x.a[0] == a['path']:
                for vv in a['variants']:
                    if vv[0] == x.a[1]: return I(vv[1])
            return discr_term(x, a)
        return lift(na[0], dv)
    if o in ('shl', 'shr', 'bitor', 'bitand', 'bitxor'):
        return bitop(o, na[0], na[1], WIDTH.get(t, 64))
    r = T(o, *na)
    if t in WIDTH and o != 'discr': WIDTH.setdefault(r, WIDTH[t])
    return r
def bitop(o, a, b, w):
    """bit operation on integer terms of width w, in canonical form"""
    if is_int(a) and is_int(b):
        x, y = a.a[0], b.a[0]
        return I({'bitand': x & y, 'bitor': x | y, 'bitxor': x ^ y, 'shr': x >> y if y < w else 0, 'shl': (x << y) & ((1 << w) - 1) if y < w else 0}[o])
    if o in ('shl', 'shr') and is_int(b) and b.a[0] == 0: return a
    if o in ('shl', 'shr') and is_int(a) and a.a[0] == 0: return a
    if o in ('bitor', 'bitxor', 'bitand'):
        for x, y in ((a, b), (b, a)):
            if is_int(x) and x.a[0] == 0: return x if o == 'bitand' else y
            if is_int(x) and x.a[0] == (1 << w) - 1 and o == 'bitand': return y
        if b.id < a.id: a, b = b, a
    r = T(o, a, b); WIDTH.setdefault(r, w)
    return int_canon(r)
def subst_c(f, m, memo):
    if f < 2: return f
    s = {}
    for v in B.support(f):
        k = ATOMS[v]
        if not k[1].haslv and not m.get('all'): continue
        nt = subst(k[1], m, memo)
        if nt is k[1]: continue
        if k[0] == 'bit':
            if nt.op == 'int': s[v] = (nt.a[0] >> k[2]) & 1
            elif k[1].op == 'discr' and nt.op == 'discr':
                x = nt.a[0]
                if x.op in ('agg', 'choice'):
                    a = DISCR_ADT[k[1]]
                    s[v] = ORS(*[c_is(x, a['path'], vv[0]) for vv in a['variants'] if (vv[1] >> k[2]) & 1])
                else:
                    discr_term(x, DISCR_ADT[k[1]])
                    for i in range(WIDTH[nt] - 1, -1, -1): _atom(('bit', nt, i))
                    s[v] = var(_atomix[('bit', nt, k[2])])
            else:
                WIDTH.setdefault(nt, width(k[1]))
                for i in range(width(k[1]) - 1, -1, -1): _atom(('bit', nt, i))
                s[v] = var(_atomix[('bit', nt, k[2])])
        elif nt.op == 'le0': s[v] = c_le(nt.a[0], I(0))
        elif nt.op == 'eq0': s[v] = c_eq(nt.a[0], I(0))
        elif nt.op == 'eq': s[v] = c_eq(nt.a[0], nt.a[1])
        else: s[v] = cond(nt)
    return B.compose(f, s) if s else f

def contains(t, pred, memo=None):
    """does any subterm (including inside conditions) satisfy pred"""
    if memo is None: memo = {}
    st = [t]
    while st:
        x = st.pop()
        if x in memo: continue
        memo[x] = 1
        if pred(x): return True
        st += children(x)
    return False
def children(x):
    out = [y for y in x.a if isinstance(y, Term)]
    if x.op == 'choice': cs = x.a[0::2]
    elif x.op == 'cond': cs = x.a[:1]
    elif x.op == 'all': cs = x.a[1:2]
    else: cs = ()
    for c in cs:
        for v in B.support(c): out.append(ATOMS[v][1])
    return out
def subterms(t):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); st += children(x)
    return seen
def cond_terms(f):
    out = set()
    for v in B.support(f): out |= subterms(ATOMS[v][1])
    return out

# ------------------------------------------------------------------ database
def tt(x):
    return tuple(tt(y) for y in x) if isinstance(x, list) else x
def norm(p):
    """strip generic arguments from a path: core::option::Option::<T>::map -> core::option::Option::map"""
    out = []; d = 0; i = 0
    if p is None: return None
    while i < len(p):
        if p.startswith('::<', i) and not p.startswith('::<impl', i):
            d = 1; i += 3
            while d:
                if p[i] == '<': d += 1
                elif p[i] == '>' and p[i - 1] != '-': d -= 1
                i += 1
            continue
        out.append(p[i]); i += 1
    return ''.join(out)

class DB:
    def __init__(self, files):
        self.fns = {}; self.impls = []; self.adts = {}; self.crates = []; self.skipped = []
        for f in files:
            d = json.load(open(f))
            self.crates.append(d['crate']); self.skipped += d['skipped']
            for fn in d['fns']: fn['crate'] = d['crate']; self.fns[fn['id']] = fn
            for im in d['impls']:
                im['args'] = tt(im['args']); self.impls.append(im)
            for a in d['adts']:
                if a['path'] not in self.adts or a['local']: self.adts[a['path']] = a
        self.bytrait = {}
        for im in self.impls: self.bytrait.setdefault(im['trait'], []).append(im)
        self.norms = {}
        for k in self.fns: self.norms.setdefault(norm(k), []).append(k)
        self._cfg = {}
    def find(self, n):
        """function id by normalised path"""
        r = self.norms.get(n)
        return r[0] if r else None
    def impl_method(self, trait, selfpath, name):
        for im in self.bytrait.get(trait, []):
            a = im['args'][0]
            while a[0] == 'ref': a = a[2]
            n = a[1] if a[0] in ('adt', 'prim') else a[0]
            if n == selfpath:
                for k, v in im['items']:
                    if k == name: return v
        return None

def unify(p, t, env):
    if p[0] == 'param':
        if p[1] in env: return env[p[1]] == t
        env[p[1]] = t; return True
    if p[0] != t[0]: return False
    if p[0] == 'adt': return p[1] == t[1] and len(p[2]) == len(t[2]) and all(unify(x, y, env) for x, y in zip(p[2], t[2]))
    if p[0] in ('ref', 'ptr'): return p[1] == t[1] and unify(p[2], t[2], env)
    if p[0] == 'slice': return unify(p[1], t[1], env)
    if p[0] == 'array': return unify(p[1], t[1], env)
    if p[0] == 'tuple': return len(p[1]) == len(t[1]) and all(unify(x, y, env) for x, y in zip(p[1], t[1]))
    return p == t
def tsub(t, env):
    if not env: return t
    if t[0] == 'param': return env.get(t[1], t)
    if t[0] == 'adt' or t[0] in ('closure', 'fndef'): return (t[0], t[1], tuple(tsub(x, env) for x in t[2]))
    if t[0] in ('ref', 'ptr'): return (t[0], t[1], tsub(t[2], env))
    if t[0] == 'slice': return ('slice', tsub(t[1], env))
    if t[0] == 'array': return ('array', tsub(t[1], env), t[2])
    if t[0] == 'tuple': return ('tuple', tuple(tsub(x, env) for x in t[1]))
    return t
def tshow(t):
    if t[0] == 'prim': return t[1]
    if t[0] == 'adt': return t[1] + ('<' + ','.join(tshow(x) for x in t[2]) + '>' if t[2] else '')
    if t[0] == 'ref': return '&' + ('mut ' if t[1] else '') + tshow(t[2])
    if t[0] == 'slice': return '[' + tshow(t[1]) + ']'
    if t[0] == 'array': return '[%s;%s]' % (tshow(t[1]), t[2])
    if t[0] == 'tuple': return '(' + ','.join(tshow(x) for x in t[1]) + ')'
    if t[0] == 'param': return t[2]
    return str(t[1]) if len(t) > 1 else t[0]

DBG = None    # current database (for adts)
LVINFO = {}   # lv term -> (loopid, init)
LOOPS = {}    # loopid -> dict

class CFG: pass
def succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch': return [b for _, b in t[2]] + [t[3]]
    if k == 'drop': return [t[2]]
    if k == 'call': return [t[4]] if t[4] is not None else []
    if k == 'assert': return [t[4]]
    if k == 'yield': return [t[2]]
    return []
def build_cfg(body):
    c = CFG(); bl = body['blocks']
    n = len(bl)
    c.succ = [succs(b['t']) for b in bl]
    # drop edges to unreachable blocks
    # rpo
    order = []; seen = set()
    st = [(0, iter(c.succ[0]))]; seen.add(0)
    while st:
        u, it = st[-1]
        for v in it:
            if v not in seen:
                seen.add(v); st.append((v, iter(c.succ[v]))); break
        else:
            order.append(u); st.pop()
    order.reverse()
    c.rpo = order; pos = {b: i for i, b in enumerate(order)}; c.pos = pos
    preds = {b: [] for b in order}
    for u in order:
        for v in c.succ[u]: preds[v].append(u)
    c.preds = preds
    # dominators
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while pos[x] > pos[y]: x = idom[x]
                            while pos[y] > pos[x]: y = idom[y]
                        new = x
            if idom.get(b) != new: idom[b] = new; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == 0: return False
            b = idom[b]
    loops = {}
    for u in order:
        for v in c.succ[u]:
            if dom(v, u):
                body_ = loops.setdefault(v, {v}); st = [u]
                while st:
                    x = st.pop()
                    if x not in body_:
                        body_.add(x); st += preds[x]
    c.loops = loops
    # liveness of locals (block entry); address-taken locals always live
    use = {}; dfn = {}
    taken = set()
    def opl(o, u, d):
        if o['k'] in ('copy', 'move'): pl(o['p'], u, d)
    def pl(p, u, d):
        if p[0] not in d: u.add(p[0])
        for e in p[1]:
            if isinstance(e, list) and e[0] == 'i' and e[1] not in d: u.add(e[1])
    for b in order:
        u, d = set(), set()
        blk = bl[b]
        for s in blk['s']:
            if s[0] == '=':
                rv = s[2]
                for x in rv_ops(rv): opl(x, u, d)
                for p in rv_places(rv):
                    pl(p, u, d)
                if rv[0] in ('ref', 'rawptr'):
                    p = rv[-1]
                    if '*' not in p[1] and (rv[0] == 'rawptr' or rv[1] == 1): taken.add(p[0])
                if s[1][1]: pl(s[1], u, d)
                else: d.add(s[1][0])
            else: pl(s[1], u, d)
        t = blk['t']
        if t[0] == 'switch': opl(t[1], u, d)
        elif t[0] == 'call':
            if t[1].get('path') is None: opl(t[1]['op'], u, d)
            for x in t[2]: opl(x, u, d)
            if t[3][1]: pl(t[3], u, d)
            else: d.add(t[3][0])
        elif t[0] == 'assert':
            opl(t[1], u, d)
            for x in t[3][1:]:
                if isinstance(x, dict): opl(x, u, d)
        elif t[0] == 'yield': opl(t[1], u, d)
        elif t[0] == 'return': u.add(0)
        use[b], dfn[b] = u, d
    live = {b: set() for b in order}
    ch = True
    while ch:
        ch = False
        for b in reversed(order):
            o = set()
            for s in c.succ[b]: o |= live[s]
            n_ = use[b] | (o - dfn[b])
            if n_ != live[b]: live[b] = n_; ch = True
    c.live = live; c.taken = taken
    return c
def rv_ops(rv):
    k = rv[0]
    if k in ('use', 'repeat'): return [rv[1]]
    if k == 'cast': return [rv[2]]
    if k == 'bin': return [rv[2], rv[3]]
    if k == 'un': return [rv[2]]
    if k == 'agg': return rv[2]
    return []
def rv_places(rv):
    k = rv[0]
    if k == 'ref': return [rv[2]]
    if k == 'rawptr': return [rv[1]]
    if k == 'discr': return [rv[1]]
    return []

class Event:
    __slots__ = ('kind', 'path', 'args', 'cond', 'res', 'fn', 'line', 'stack', 'info', 'targs', 'fnid')
    def __repr__(self): return '%s %s(%s) if %s @%s:%s' % (self.kind, self.path, ', '.join(show(x) for x in self.args), showc(self.cond), self.fn, self.line)

class Summary: pass

class Engine:
    def __init__(self, db, stop=None, maxdepth=14):
        global DBG
        self.db = db; DBG = db
        self.stop = stop or (lambda fid, env: False)
        self.events = []; self.fid = 0; self.maxdepth = maxdepth
        self.loops = {}; self.stack = []; self.constmemo = {}; self.fnvals = {}; self.envs = {}
        self.analysed = set(); self.blocks = 0; self.opaque_mut = 0; self.hook = None; self.frame = ()
        import models
        self.models = models.MODELS
        self.tmodels = models.TRAIT_MODELS
    # ---- memory
    def init_root(self, st, root):
        v = st.get(root)
        if v is None:
            v = root[1] if root[0] == 'T' else T('undef', str(root))
        return v
    def split_loc(self, loc):
        """a place behind a reference that is one of several: [(condition, place)]"""
        r = loc[0]
        if r[0] == 'T' and r[1].op == 'choice' and any(x.op == 'mref' for _, x in alts(r[1])):
            return [(c, (MREF[x][0], MREF[x][1] + loc[1]) if x.op == 'mref' else (('T', x), loc[1])) for c, x in alts(r[1])]
        return None
    def read(self, st, loc):
        sp = self.split_loc(loc)
        if sp: return choice([(c, self.read(st, l)) for c, l in sp])
        t = self.init_root(st, loc[0])
        for e in loc[1]: t = self.projd(st, t, e)
        return t
    def projd(self, st, t, e):
        if t.op == 'mref': t = self.read(st, MREF[t])
        return proj(t, e)
    def write(self, st, loc, v):
        sp = self.split_loc(loc)
        if sp:
            for c, l in sp: self.write(st, l, choice([(c, refine(v, c)), (NOT(c), self.read(st, l))]))
            return
        root, path = loc
        st[root] = update(self.init_root(st, root), list(path), v) if path else v
    def deref(self, st, v):
        if v.op == 'mref': return MREF[v]
        if v.op == 'choice' and any(x.op == 'mref' for _, x in alts(v)):
            pass
        return (('T', v), ())
    def place(self, fr, st, p):
        loc = (('L', fr.id, p[0]), ())
        variant = None
        for e in p[1]:
            if e == '*':
                loc = self.deref(st, self.read(st, loc))
            elif e[0] == 'f':
                # references stored inside are transparent only through explicit Deref
                loc = (loc[0], loc[1] + (('f', variant, e[2]),)); variant = None
            elif e[0] == 'd': variant = e[2]
            elif e[0] == 'i': loc = (loc[0], loc[1] + (('i', self.read(st, (('L', fr.id, e[1]), ()))),))
            elif e[0] == 'ci': loc = (loc[0], loc[1] + (('ci', e[1], e[3]),))
            elif e[0] == 'ss': loc = (loc[0], loc[1] + (('ss', e[1], e[2], e[3]),))
        return loc
    def val(self, st, t):
        """content if t is a mutable reference, else itself"""
        n = 0
        while t.op == 'mref' and n < 8: t = self.read(st, MREF[t]); n += 1
        if t.op == 'choice' and any(x.op == 'mref' for _, x in alts(t)):
            return choice([(c, self.val(st, x)) for c, x in alts(t)])
        return t
    def ptype(self, fr, p):
        return None
    # ---- operands
    def operand(self, fr, st, o):
        if o['k'] in ('copy', 'move'):
            loc = self.place(fr, st, o['p'])
            v = self.read(st, loc)
            if not o['p'][1]:
                ty = fr.body['locals'][o['p'][0]][0]
                if ty[0] == 'prim': self.regwidth(v, ty[1])
            return v
        if o['k'] == 'const': return self.constant(fr, o)
        return T('rt')
    PW = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'bool': 1, 'u128': 128, 'char': 32, 'i32': 32, 'i64': 64, 'isize': 64, 'i8': 8, 'i16': 16}
    def regwidth(self, v, p):
        if v.op not in ('int', 'lin', 'choice', 'cond', 'discr') and p in self.PW and p != 'bool': WIDTH.setdefault(v, self.PW[p])
    def constant(self, fr, o):
        ty = tt(o['ty'])
        if ty[0] == 'fndef':
            args = tuple(tsub(x, fr.env) for x in ty[2])
            return T('fn', ty[1], self.envkey(args))
        if 'int' in o:
            if ty[0] == 'adt':
                a = self.db.adts.get(ty[1])
                if a and a['kind'] == 'enum':
                    for v in a['variants']:
                        if v[1] == o['int'] and not v[2]: return agg(ty[1], v[0], [], [])
            return I(o['int'])
        if 'promoted' in o:
            pb = None
            f = self.db.fns.get(o['pdef'])
            if f and o['promoted'] < len(f['promoted']): pb = f['promoted'][o['promoted']]
            if pb is not None: return self.eval_const_body(pb, f, fr.env, (o['pdef'], 'p', o['promoted'], self.envkey(tuple(sorted(fr.env.items())))))
        if 'bytes' in o:
            t = ty[2] if ty[0] == 'ref' else ty
            if t[0] == 'str': return T('str', bytes.fromhex(o['bytes']).decode('utf-8', 'replace'))
            return T('bytes', o['bytes'])
        if 'name' in o:
            f = self.db.fns.get(o['name'])
            if f: return self.eval_const_body(f, f, self.genv(f, tuple(tsub(tt(x), fr.env) for x in o.get('args', []))), (o['name'], 'c'))
            args = tuple(tsub(tt(x), fr.env) for x in o.get('args', []))
            # associated constant of a trait
            if '::' in o['name'] and args:
                tr, nm = o['name'].rsplit('::', 1)
                r = self.find_impl(tr, args)
                if r:
                    for k, v in r[0]['items']:
                        if k == nm and v in self.db.fns:
                            f = self.db.fns[v]
                            return self.eval_const_body(f, f, r[1], (v, 'c', self.envkey(args)))
            return T('const', o['name'].replace('time::SystemTime::UNIX_EPOCH', 'time::UNIX_EPOCH'), *[tshow(x) for x in args])
        if 'static' in o:
            f = self.db.fns.get(o['static'])
            if f: return self.eval_const_body(f, f, {}, (o['static'], 's'))
            return T('static', o['static'])
        if ty[0] == 'tuple' and not ty[1]: return UNIT
        return T('zst', tshow(tsub(ty, fr.env)))
    def eval_const_body(self, body, fn, env, key):
        if key in self.constmemo: return self.constmemo[key]
        self.constmemo[key] = T('rec', str(key))
        ev = self.events; self.events = []
        r = self.run_body(body, fn, env, [], {}, const=True)
        self.events = ev
        t = choice([(c, t) for c, t, s in r]) if r else T('never')
        self.constmemo[key] = t
        return t
    def envkey(self, x):
        k = json.dumps(x)
        self.envs[k] = x
        return k
    def genv(self, fn, args):
        env = {}
        for (idx, name), a in zip(fn['generics'], args): env[idx] = a
        return env
    # ---- resolution
    def find_impl(self, trait, args):
        best = None
        for im in self.db.bytrait.get(trait, []):
            if len(im['args']) > len(args): continue
            env = {}
            if all(unify(p, t, env) for p, t in zip(im['args'], args)):
                best = (im, env); 
                if im['args'][0][0] != 'param': break
        return best
    # provided methods that are abbreviations: evaluated for a type parameter as long as no implementation overrides them
    DEFAULTS = {'tls_core::msgs::codec::Codec::get_encoding', 'tls_core::msgs::codec::Codec::read_bytes'}
    def resolve(self, c, env):
        """-> (fn or None, env, canonical path, targs)"""
        path = c['path']
        targs = tuple(tsub(tt(x), env) for x in c['args'])
        tr = c.get('trait')
        if tr is None and path not in self.db.fns and '::' in path and path.rsplit('::', 1)[0] in self.db.bytrait:
            tr = path.rsplit('::', 1)[0]
        if tr:
            nm = path.rsplit('::', 1)[1]
            if targs and targs[0][0] in ('ref',) :
                r = self.find_impl(tr, targs)
                if not r:
                    pass
            r = self.find_impl(tr, targs)
            if r:
                im, e = r
                for k, v in im['items']:
                    if k == nm:
                        f = self.db.fns.get(v)
                        if f is None: return None, {}, path, targs
                        own = targs[len(im['args']):]
                        e2 = dict(e)
                        rest = [g for g in f['generics'] if g[0] not in e2 and not any(g[0] == x for x in e2)]
                        ng = f['generics']
                        for g, a in zip(ng[len(ng) - len(own):] if own else [], own): e2.setdefault(g[0], a)
                        return f, e2, path, targs
                f = self.db.fns.get(path)     # default method
                if f: return f, self.genv(f, targs), path, targs
                return None, {}, path, targs
            f = self.db.fns.get(path)
            if f and path in self.DEFAULTS and targs and targs[0][0] == 'param' and not any(k == nm for im in self.db.bytrait.get(tr, []) for k, _ in im['items']):
                return f, self.genv(f, targs), path, targs
            if f and targs and targs[0][0] in ('adt', 'closure') and False: return f, self.genv(f, targs), path, targs
            return None, {}, path, targs
        f = self.db.fns.get(path)
        if f: return f, self.genv(f, targs), path, targs
        return None, {}, path, targs
    # ---- running bodies
    def summarize(self, fid, args=None, env=None):
        """analyse a function from symbolic arguments"""
        f = self.db.fns[fid]
        self.events = []
        st = dict(getattr(self, 'init_state', None) or {})
        n = f['argc']
        if args is None: args = self.symargs(f)
        for i, a in enumerate(args):
            ty = f['locals'][i + 1][0]
            if ty[0] == 'prim': self.regwidth(a, ty[1])
            self.reglen(a, tt(ty))
        s = Summary(); s.fn = f; s.args = args
        self.stack = [fid]
        rs = self.run_body(f, f, env or {}, args, st)
        s.returns = [(c, t) for c, t, _ in rs]
        s.ret = choice([(c, t) for c, t, _ in rs])
        tot = ORS(*[c for c, _, _ in rs])
        s.total = tot
        s.state = self.merge([(c, x) for c, _, x in rs], tot, None)
        s.final = lambda a: self.read(s.state, (('T', a), ())) if rs else a
        s.events = self.events
        # async fn: evaluate the coroutine body
        return s
    def symargs(self, f):
        return [T('arg', i, tshow(tt(f['locals'][i + 1][0]))) for i in range(f['argc'])]
    def summarize_async(self, fid, args=None, env=None):
        """analyse the body of an async function (or a function returning an async block)"""
        f = self.db.fns[fid]
        self.events = []; st = {}
        if args is None: args = self.symargs(f)
        self.stack = [fid]
        rs = self.run_body(f, f, env or {}, args, st)
        s = Summary(); s.fn = f; s.args = args
        out = []
        for c, t, x in rs:
            v = self.val(x, t)
            if v.op == 'coro':
                cf = self.db.fns.get(v.a[0])
                if cf:
                    rr = self.run_body(cf, cf, dict(self.envs[v.a[1]]), [v, T('cx')], x)
                    out += [(AND(c, c2), t2, x2) for c2, t2, x2 in rr]; continue
            out.append((c, t, x))
        s.returns = [(c, t) for c, t, _ in out]
        s.total = ORS(*[c for c, _, _ in out])
        s.ret = choice([(constrain(c, s.total), t) for c, t, _ in out])
        s.state = self.merge([(c, x) for c, _, x in out], s.total, None)
        s.final = lambda a: self.read(s.state, (('T', a), ())) if out else a
        s.events = self.events
        return s
    def reglen(self, t, ty):
        if ty[0] == 'ref': ty = ty[2]
        if ty[0] == 'array' and isinstance(ty[2], int) and t.op not in ('bytes', 'arr', 'mref'): setlen(t, ty[2])
    def run_body(self, body, fn, env, args, st, const=False):
        """-> list of (cond, ret, state)"""
        self.fid += 1
        fr = Frame(); fr.id = self.fid; fr.body = body; fr.fn = fn; fr.env = env
        self.analysed.add(fn['id'])
        st = dict(st)
        for i, a in enumerate(args): st[('L', fr.id, i + 1)] = a
        cfg = body.get('_cfg')
        if cfg is None: cfg = body['_cfg'] = build_cfg(body)
        fr.cfg = cfg
        fr.rets = []
        res = self.region(fr, set(cfg.rpo), 0, st, 1, None)
        rets = []
        for c, s in res.returns:
            if c == 0: continue
            v = s.get(('L', fr.id, 0), UNIT)
            s2 = {k: x for k, x in s.items() if not (k[0] == 'L' and k[1] == fr.id)}
            rets.append((c, v, s2))
        if len(rets) > 1:
            tot = ORS(*[c for c, _, _ in rets])
            v = choice([(constrain(c, tot), v) for c, v, _ in rets])
            s = self.merge([(c, x) for c, _, x in rets], tot, None)
            rets = [(tot, v, s)]
        return rets
    def merge(self, ins, reach, live):
        if not ins: return {}
        if len(ins) == 1: return dict(ins[0][1])
        out = {}
        keys = set()
        for _, s in ins: keys |= set(s)
        rel = [(constrain(c, reach), s) for c, s in ins]
        for k in keys:
            if live is not None and k[0] == 'L' and k[1] == live[0] and k[2] not in live[1]: continue
            vs = []
            first = None; same = True
            for c, s in rel:
                v = s.get(k)
                if v is None:
                    if k[0] == 'T': v = k[1]
                    else: continue
                vs.append((c, v))
                if first is None: first = v
                elif v is not first: same = False
            if same: out[k] = first
            else:
                tot = ORS(*[c for c, _ in vs])
                if tot != 1: vs = [(constrain(c, tot), v) for c, v in vs]
                out[k] = choice(vs)
        return out
    def region(self, fr, blocks, entry, st0, c0, header):
        cfg = fr.cfg
        R = Region(); R.returns = []; R.exits = []; R.back = []
        inc = {entry: [(c0, st0)]}
        # exit edges skip through
        inner = {h: b for h, b in cfg.loops.items() if h in blocks and h != header and b <= blocks}
        # maximal inner loops only
        maximal = {}
        for h, b in inner.items():
            if not any(h2 != h and h in b2 for h2, b2 in inner.items()): maximal[h] = b
        covered = {}
        for h, b in maximal.items():
            for x in b: covered[x] = h
        order = [b for b in cfg.rpo if b in blocks]
        # loop bodies may be interleaved with exit blocks in rpo: process the loop at its header
        for b in order:
            if b in covered and covered[b] != b: continue
            ins = inc.pop(b, None)
            if not ins: continue
            reach = ORS(*[c for c, _ in ins])
            if reach == 0: continue
            st = self.merge(ins, reach, (fr.id, cfg.live[b] | cfg.taken | {0}))
            if b in maximal:
                rr = self.loop(fr, b, maximal[b], st, reach)
                R.returns += rr.returns
                outs = rr.exits
            else:
                outs = self.block(fr, b, st, reach, R)
            for tgt, c, s in outs:
                if c == 0: continue
                if tgt == header: R.back.append((c, s))
                elif tgt not in blocks: R.exits.append((tgt, c, s))
                else: inc.setdefault(tgt, []).append((c, s))
        return R
    def loop(self, fr, h, body, st, reach):
        cfg = fr.cfg; bl = fr.body['blocks']
        lid = '%s#%d.%d' % (fr.fn['id'], fr.id, h)
        M = set()
        for b in body:
            for s in bl[b]['s']:
                if s[0] == '=':
                    if not ('*' in s[1][1]): M.add(('L', fr.id, s[1][0]))
                elif '*' not in s[1][1]: M.add(('L', fr.id, s[1][0]))
            t = bl[b]['t']
            if t[0] == 'call' and '*' not in t[3][1]: M.add(('L', fr.id, t[3][0]))
        M = {k for k in M if k in st}
        idxmap = {}
        tries = 0
        nofix = set()
        while True:
            tries += 1
            LVN.pop(lid, None)
            sh = dict(st)
            lvs = {}
            for k in M:
                if k in idxmap: sh[k] = idxmap[k]; continue
                if k not in st and k[0] == 'T': init = k[1]
                else: init = st[k]
                lv = T('lv', lid, str(k) if k[0] == 'L' else 'T%d' % k[1].id)
                LVINFO[lv] = (lid, init)
                if init in WIDTH: WIDTH.setdefault(lv, WIDTH[init])
                if init in LEN and False: LEN[lv] = LEN[init]
                lvs[k] = lv
                sh[k] = lv
            ne = len(self.events)
            R = self.region(fr, body, h, sh, 1, h)
            if not R.back and M and not idxmap:
                # not really a loop (e.g. an await): evaluate plainly
                del self.events[ne:]
                R = self.region(fr, body, h, dict(st), 1, h)
                if not R.back: 
                    for e in self.events[ne:]: e.cond = AND(reach, e.cond)
                    R.returns = [(AND(reach, c), s) for c, s in R.returns]
                    R.exits = [(t, AND(reach, c), s) for t, c, s in R.exits]
                    return R
            # modified roots
            newM = set(); steps = {}
            tot = ORS(*[c for c, _ in R.back])
            sb = self.merge([(c, s) for c, s in R.back], tot, None) if R.back else {}
            for k, v in sb.items():
                if k[0] == 'L' and k[1] == fr.id and k not in st: continue
                if k in lvs or k in idxmap: continue
                if k[0] == 'L' and k not in st: continue
                base = st.get(k, k[1] if k[0] == 'T' else None)
                if v is not base: newM.add(k)
            drop = set()
            for k, lv in lvs.items():
                v = sb.get(k, lv)
                steps[k] = v
                if v is lv and R.back: drop.add(k)
            newidx = {}
            if tries < 6 and not newM:
                for k, lv in lvs.items():
                    v = steps[k]
                    if v.op == 'lin' and v is add(lv, I(1)) and is_int(LVINFO[lv][1]) and LVINFO[lv][1].a[0] == 0 and k not in nofix:
                        X = self.guard_of(R, lv)
                        if X is not None: newidx[k] = T('idx', X)
            if (newM or (drop and tries < 4) or newidx) and tries < 8:
                del self.events[ne:]
                M = (M | newM) - drop
                idxmap.update(newidx)
                continue
            break
        info = dict(id=lid, header=h, init={lvs[k]: LVINFO[lvs[k]][1] for k in lvs}, step={lvs[k]: steps[k] for k in lvs}, reach=reach, fn=fr.fn['id'], back=tot, over=None, body=None)
        LOOPS[lid] = info; self.loops[lid] = info
        # recognise iteration over a collection
        X = None
        if idxmap: X = next(iter(idxmap.values())).a[0]
        for k, lv in lvs.items():
            if steps[k].op == 'lvn' and steps[k].a[0] is lv: X = iterable(LVINFO[lv][1])
        if X is not None and R.back and coll(X).op == 'arr' and len(coll(X).a) <= 16:
            ev = self.events[ne:]; del self.events[ne:]
            r = self.unroll(fr, h, body, st, reach, len(coll(X).a))
            if r is not None: return r
            self.events += ev
        out = Region(); out.returns = []; out.exits = []; out.back = []
        if X is not None and R.back:
            hv = hasnext_cond(X)
            hn, hd = hv
            Bc = B_restrict(tot, hn, 1)
            info['over'] = X; info['body'] = Bc
            m = {}
            for k, lv in lvs.items():
                if steps[k].op == 'lvn': continue
                sd = subst(steps[k], {lv: T('acc')}) if steps[k].haslv else steps[k]
                m[lv] = mk_fold(X, LVINFO[lv][1], sd)
                if LVINFO[lv][1] in WIDTH: WIDTH.setdefault(m[lv], WIDTH[LVINFO[lv][1]])
            # resolve folds that mention other loop variables
            A = mk_all(X, Bc)
            nBc = AND(NOT(Bc), valid(Bc)) or NOT(Bc)
            def fin(s):
                memo = {}
                return {k: subst(v, m, memo) for k, v in s.items()}
            def split(c):
                n = B_restrict(c, hn, 0); e = B_restrict(c, hn, 1)
                return n, e
            for e in self.events[ne:]:
                e.cond = AND(reach, e.cond)
            for kind, items in (('r', R.returns), ('x', R.exits)):
                for it in items:
                    c, s = (it[0], it[1]) if kind == 'r' else (it[1], it[2])
                    n, e = split(c)
                    for part, cc in ((0, n), (1, e)):
                        if cc == 0: continue
                        # an edge taken independent of hasnext appears in both
                        if part == 0:
                            if B_depends(c, hn) or e == 0: fc = ANDS(reach, A, cc)
                            else: fc = ANDS(reach, A, cc)
                            s2 = fin(s)
                        else:
                            fc = ANDS(reach, NOT(A), constrain(cc, nBc))
                            s2 = s
                        if fc == 0: continue
                        if kind == 'r': out.returns.append((fc, s2))
                        else: out.exits.append((it[0], fc, s2))
            return out
        for e in self.events[ne:]: e.cond = AND(reach, e.cond)
        out.returns = [(AND(reach, c), s) for c, s in R.returns]
        out.exits = [(t, AND(reach, c), s) for t, c, s in R.exits]
        return out
    def unroll(self, fr, h, body, st, reach, n):
        ne = len(self.events)
        out = Region(); out.returns = []; out.exits = []; out.back = []
        cur = [(reach, st)]
        for i in range(n + 2):
            tot = ORS(*[c for c, _ in cur])
            R = self.region(fr, body, h, self.merge(cur, tot, None), tot, h)
            out.returns += R.returns; out.exits += R.exits
            cur = [(c, s) for c, s in R.back if c != 0]
            if not cur: return out
        del self.events[ne:]
        return None
    def guard_of(self, R, lv):
        """X if the loop is guarded by lv < len(X)"""
        cs = [c for _, c, _ in R.exits] + [c for c, _ in R.back]
        for c in cs:
            for v in B.support(c):
                k = ATOMS[v]
                if k[0] == 'b' and k[1].op == 'le0' and k[1].a[0].op == 'lin':
                    cc, m = lin_of(k[1].a[0])
                    if lv in m and len(m) == 2:
                        o = [x for x in m if x is not lv][0]
                        if o.op == 'len' and not o.haslv and m[lv] * m[o] == -1: return o.a[0]
        return None
    def block(self, fr, b, st, reach, R):
        blk = fr.body['blocks'][b]
        self.blocks += 1
        st = dict(st)
        for s in blk['s']:
            if s[0] == '=':
                v = self.rvalue(fr, st, s[2], s[1])
                loc = self.place(fr, st, s[1])
                self.write(st, loc, v)
                if not s[1][1]:
                    ty = fr.body['locals'][s[1][0]][0]
                    if ty[0] == 'prim': self.regwidth(v, ty[1])
                    elif ty[0] == 'array': self.reglen(v, tt(ty))
        t = blk['t']; k = t[0]
        if k == 'goto': return [(t[1], reach, st)]
        if k == 'drop': return [(t[2], reach, st)]
        if k == 'return': R.returns.append((reach, st)); return []
        if k == 'yield':
            self.write(st, self.place(fr, st, t[3]), T('cx'))
            return [(t[2], reach, st)]
        if k == 'assert':
            c = cond(self.operand(fr, st, t[1]))
            if not t[2]: c = NOT(c)
            bad = AND(reach, NOT(c))
            m = t[3]
            if bad != 0:
                ops = [self.operand(fr, st, x) for x in m[1:] if isinstance(x, dict)]
                self.event('panic', 'assert:' + m[0] + (':' + m[1] if m[0] == 'overflow' else ''), ops, bad, None, fr, blk['ln'])
            return [(t[4], reach, st)]
        if k == 'switch':
            d = self.operand(fr, st, t[1])
            ty = t[4]
            outs = {}
            rest = reach
            for v, tgt in t[2]:
                if ty == ['prim', 'bool']:
                    c = cond(d); c = NOT(c) if v == 0 else c
                else:
                    c = c_eqint(d, v, self.PW.get(ty[1], 64) if ty[0] == 'prim' else 64)
                cc = AND(rest, c)
                outs[tgt] = OR(outs.get(tgt, 0), cc)
                rest = AND(rest, NOT(c))
            if fr.body['blocks'][t[3]]['t'][0] != 'unreachable':
                outs[t[3]] = OR(outs.get(t[3], 0), rest)
            outs = [(tg, c) for tg, c in outs.items() if c != 0]
            if len(outs) == 1: return [(outs[0][0], outs[0][1], st)]
            return [(tg, c, self.refine_state(st, c)) for tg, c in outs]
        if k == 'call': return self.call(fr, b, blk, t, st, reach)
        return []
    def refine_state(self, st, c):
        return {k: refine(v, c) for k, v in st.items()}
    def event(self, kind, path, args, c, res, fr, ln, targs=(), info=None):
        e = Event(); e.kind = kind; e.path = path; e.args = args; e.cond = c; e.res = res
        e.fn = fr.fn['id']; e.line = ln; e.stack = tuple(self.stack); e.targs = targs; e.info = info; e.fnid = None
        self.events.append(e)
        return e
    def rvalue(self, fr, st, rv, dst):
        k = rv[0]
        if k == 'use': return self.operand(fr, st, rv[1])
        if k == 'ref':
            loc = self.place(fr, st, rv[2])
            if rv[1] == 1:
                sp = self.split_loc(loc)
                return choice([(c, mref(l)) for c, l in sp]) if sp else mref(loc)
            return self.read(st, loc)
        if k == 'rawptr': return mref(self.place(fr, st, rv[1]))
        if k == 'cast':
            v = self.operand(fr, st, rv[2])
            if rv[1] == 'IntToInt':
                a, b_ = rv[3], rv[4]
                wb = self.PW.get(b_[1], 64)
                if a[0] == 'prim':
                    wa = self.PW.get(a[1], 64)
                    if a[1] == 'bool': return lift(v, lambda x: x) if v.op != 'cond' else v
                else:
                    wa = 64
                    def dv(x):
                        if x.op == 'agg':
                            ad = self.db.adts.get(x.a[0])
                            for vv in (ad['variants'] if ad else []):
                                if vv[0] == x.a[1]: return I(vv[1])
                        return x
                    v = lift(v, dv)
                    return v
                if v.op == 'choice': return lift(v, lambda x: trunc(x, wb) if wb < wa else x)
                self.regwidth(v, a[1])
                return trunc(v, wb) if wb < wa else v
            if rv[1].startswith('PointerCoercion(Unsize'):
                ty = tt(rv[3])
                if ty[0] == 'ref' and ty[2][0] == 'array' and isinstance(ty[2][2], int):
                    vv = self.val(st, v)
                    if vv.op not in ('bytes', 'arr', 'rep', 'choice', 'seq', 'slice'): setlen(vv, ty[2][2])
                    elif vv.op == 'choice':
                        for _, x in alts(vv):
                            if x.op not in ('bytes', 'arr', 'rep', 'seq', 'slice'): setlen(x, ty[2][2])
            return v
        if k == 'bin': return self.binop(rv[1], self.operand(fr, st, rv[2]), self.operand(fr, st, rv[3]), rv[4])
        if k == 'un':
            v = self.operand(fr, st, rv[2])
            if rv[1] == 'Not':
                o = rv[2]
                isb = v.op in ('cond',) or (o['k'] != 'const' and self.optype(fr, o) == ['prim', 'bool']) or o.get('ty') == ['prim', 'bool']
                if isb: return Bt(NOT(cond(v)))
                return T('bnot', v)
            if rv[1] == 'PtrMetadata': return length(self.val(st, v))
            if rv[1] == 'Neg': return mul(I(-1), v)
            return T('un', rv[1], v)
        if k == 'discr':
            v = self.read(st, self.place(fr, st, rv[1]))
            ty = rv[2]
            return self.discr(v, ty)
        if k == 'agg':
            kk = rv[1]; ops = [self.operand(fr, st, x) for x in rv[2]]
            if kk[0] == 'adt':
                if kk[1] in ('alloc::boxed::Box',): return ops[0]
                return agg(kk[1], kk[3], kk[4], ops)
            if kk[0] == 'tuple': return T('tup', *ops)
            if kk[0] == 'array': return T('arr', *ops)
            if kk[0] == 'closure': return T('clo', kk[1], self.envkey(tuple(sorted(fr.env.items()))), *ops)
            if kk[0] == 'coroutine': return T('coro', kk[1], self.envkey(tuple(sorted(fr.env.items()))), *ops)
            return T('raw', *ops)
        if k == 'repeat':
            v = self.operand(fr, st, rv[1])
            return T('rep', v, I(rv[2]) if isinstance(rv[2], int) else T('cgen', rv[2]))
        return T('rv', k, json.dumps(rv[1:])[:200])
    def optype(self, fr, o):
        p = o['p']
        if not p[1]: return fr.body['locals'][p[0]][0]
        return None
    def discr(self, v, ty):
        if v.op == 'choice': return lift(v, lambda x: self.discr(x, ty))
        if v.op == 'agg':
            a = self.db.adts.get(v.a[0])
            if a:
                for vv in a['variants']:
                    if vv[0] == v.a[1]: return I(vv[1])
            return I(0)
        if v.op == 'never': return v
        if v.op == 'branch':
            # Continue = 0, Break = 1
            return Bt(NOT(success(v.a[0])))
        if ty[0] == 'adt':
            a = self.db.adts.get(ty[1])
            if a: return discr_term(v, a)
        return T('discr', v)
    def binop(self, op, a, b, ty):
        w = self.PW.get(ty[1], 64) if ty[0] == 'prim' else 64
        if ty[0] == 'prim' and ty[1] != 'bool': self.regwidth(a, ty[1]); self.regwidth(b, ty[1])
        isb = ty == ['prim', 'bool']
        if op in ('Eq', 'Ne'):
            if isb: f = NOT(XOR(cond(a), cond(b)))
            elif ty[0] == 'prim':
                if b.op == 'int' and a.op != 'choice': f = c_eqint(a, b.a[0], w)
                elif a.op == 'int' and b.op != 'choice': f = c_eqint(b, a.a[0], w)
                elif dist2(a, b, c_eq) is not None: f = dist2(a, b, c_eq)
                else:
                    c, m = lin_of(sub(a, b))
                    if not m: f = 1 if c == 0 else 0
                    elif len(m) == 1: f = c_eq(sub(a, b), I(0)) if True else 0
                    else: f = c_eq0(c, m)
            else: f = c_eq(a, b)
            return Bt(f if op == 'Eq' else NOT(f))
        if op == 'Lt': return Bt(c_lt(a, b))
        if op == 'Le': return Bt(c_le(a, b))
        if op == 'Gt': return Bt(c_lt(b, a))
        if op == 'Ge': return Bt(c_le(b, a))
        if isb:
            if op == 'BitAnd': return Bt(AND(cond(a), cond(b)))
            if op == 'BitOr': return Bt(OR(cond(a), cond(b)))
            if op == 'BitXor': return Bt(XOR(cond(a), cond(b)))
        ov = op.endswith('WithOverflow')
        if ov: op = op[:-12]
        op = op.replace('Unchecked', '')
        if op == 'Add': r = add(a, b)
        elif op == 'Sub': r = sub(a, b)
        elif op == 'Mul': r = mul(a, b)
        elif op == 'Shl' and is_int(b) and w >= 64: r = mul(I(1 << b.a[0]), a)
        elif op == 'Div' and is_int(b) and b.a[0] > 1 and b.a[0] & (b.a[0] - 1) == 0 and not is_int(a) and not (ty[0] == 'prim' and ty[1].startswith('i')): r = bitop('shr', a, I(b.a[0].bit_length() - 1), w)
        elif op == 'Rem' and is_int(b) and b.a[0] > 1 and b.a[0] & (b.a[0] - 1) == 0 and not is_int(a) and not (ty[0] == 'prim' and ty[1].startswith('i')): r = bitop('bitand', a, I(b.a[0] - 1), w)
        elif op in ('BitAnd', 'BitOr', 'BitXor', 'Shr', 'Shl') and (op == 'Shl' or not (is_int(a) and is_int(b))): r = bitop(op.lower(), a, b, w)
        elif is_int(a) and is_int(b) and op in ('BitAnd', 'BitOr', 'BitXor', 'Shr', 'Div', 'Rem'):
            x, y = a.a[0], b.a[0]
            r = I({'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y, 'Shr': x >> y, 'Div': x // y if y else 0, 'Rem': x % y if y else 0}[op])
        else:
            if op in ('BitAnd', 'BitOr', 'BitXor') and b.id < a.id: a, b = b, a
            r = T(op.lower(), a, b)
            WIDTH.setdefault(r, w)
        r = int_canon(r)
        if ov: return T('tup', r, Bt(ovf(op, a, b, r, w)))
        if r.op not in ('int', 'lin', 'choice'): WIDTH.setdefault(r, w)
        return r
    # ---- calls
    def call(self, fr, b, blk, t, st, reach):
        c, ops, dst, tgt = t[1], t[2], t[3], t[4]
        args = [self.operand(fr, st, x) for x in ops]
        st = dict(st)
        ln = blk['ln']
        outs = []
        for g, args_ in self.split_args(args):
            s_ = dict(st) if g != 1 else st
            if c['path'] is None:
                fv = self.val(s_, self.operand(fr, s_, c['op']))
                o = self.apply(fr, fv, args_, s_, AND(reach, g), ln)
            else:
                o = self.call_path(fr, c, args_, s_, AND(reach, g), ln)
            outs += [(AND(g, cc), v, s2) for cc, v, s2 in o]
        res = []
        for cc, v, s in outs:
            if cc == 0: continue
            if tgt is None: continue
            s = dict(s)
            self.write(s, self.place(fr, s, dst), v)
            if not dst[1]:
                ty = fr.body['locals'][dst[0]][0]
                if ty[0] == 'prim': self.regwidth(v, ty[1])
                elif ty[0] == 'array': self.reglen(v, tt(ty))
            res.append((tgt, AND(reach, cc), s))
        if tgt is None and not outs_is_panic(outs):
            self.event('panic', 'call:' + norm(c['path'] or '?'), args, reach, None, fr, ln)
        return res
    def split_args(self, args):
        """a call through a mutable reference that is one of several is a call for each of them"""
        for i, a in enumerate(args):
            if a.op == 'choice' and len(a.a) <= 12 and any(x.op == 'mref' for _, x in alts(a)):
                out = []
                for c, x in alts(a):
                    for g, r in self.split_args([x if j == i else refine(y, c) for j, y in enumerate(args)]): out.append((AND(c, g), r))
                return [(g, r) for g, r in out if g != 0]
        return [(1, args)]
    def call_path(self, fr, c, args, st, reach, ln):
        """-> [(cond relative, value, state)]"""
        f, env, path, targs = self.resolve(c, fr.env)
        np = norm(path)
        if self.hook is not None:
            r = self.hook(self, fr, np, f, env, args, st, reach, ln, targs)
            if r is not None: return self.wrap(r, st)
        # models on canonical names
        m = self.models.get(np)
        if m is not None and (f is None or not c.get('trait')):
            r = m(self, fr, args, st, reach, ln, targs)
            if r is not None: return self.wrap(r, st)
        if f is None and c.get('trait'):
            pass
        if f is None:
            # trait-default or closures
            if np in ('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call'):
                fv = self.val(st, args[0])
                a = self.val(st, args[1])
                if a.op == 'tup': return self.apply(fr, fv, list(a.a), st, reach, ln)
        if f is not None and not self.stop(f['id'], env) and len(self.stack) < self.maxdepth and f['id'] not in self.stack and f['kind'] != 'Ctor' and not f['cor']:
            ev = self.event('inl', np, [self.val(st, a) for a in args], reach, None, fr, ln, targs)
            ev.fnid = f['id']
            ne = len(self.events)
            self.stack.append(f['id'])
            rs = self.run_body(f, f, env, args, st)
            self.stack.pop()
            for e in self.events[ne:]: e.cond = AND(reach, e.cond)
            if rs: ev.res = choice([(cc, v) for cc, v, _ in rs])
            return rs
        if f is not None and f.get('kind') == 'Ctor': pass
        return [self.opaque(fr, np, args, st, reach, ln, targs, f['id'] if f else None)]
    def wrap(self, r, st):
        if isinstance(r, Term): return [(1, r, st)]
        if isinstance(r, tuple): return [r]
        return r
    def opaque(self, fr, np, args, st, reach, ln, targs, fid=None):
        vals = [self.val(st, a) for a in args]
        vals = [self.deepval(st, v) for v in vals]
        # constructor functions used as calls do not occur in MIR
        call = T('call', np, self.selfkey(np, targs), *vals)
        ev = self.event('call', np, vals, reach, call, fr, ln, targs)
        ev.fnid = fid
        st = dict(st)
        k = 0
        for i, a in enumerate(args):
            for mr in mrefs_in(self, st, a):
                loc = MREF[mr]
                new = T('eff', call, k)
                for n in self.kept(np) if k == 0 else (): new = update(new, (('f', None, n),), proj(vals[i], ('f', None, n)))
                self.write(st, loc, new); k += 1
        return (1, call, st)
    def kept(self, np):
        """fields of its receiver that an opaque function does not change (proved separately by the rule that says so)"""
        return [n for rx, names in self.frame for n in names if re.search(rx, np)]
    def selfkey(self, np, targs):
        return tshow(targs[0]) if targs and targs[0][0] != 'constv' else ''
    def deepval(self, st, v, d=0):
        if d > 6: return v
        if v.op == 'mref': return self.deepval(st, self.val(st, v), d + 1)
        if v.op in ('clo', 'coro', 'tup', 'agg', 'arr', 'iter', 'map', 'filter') and any(isinstance(x, Term) and has_mref(x) for x in v.a):
            return T(v.op, *[self.deepval(st, x, d + 1) if isinstance(x, Term) else x for x in v.a])
        return v
    def apply(self, fr, fv, args, st, reach, ln):
        """call a function value"""
        if fv.op == 'choice':
            outs = []
            for c, x in alts(fv):
                outs += [(AND(c, cc), v, s) for cc, v, s in self.apply(fr, x, args, st, AND(reach, c), ln)]
            if len(outs) > 1:
                tot = ORS(*[o[0] for o in outs])
                return [(tot, choice([(constrain(o[0], tot), o[1]) for o in outs]), self.merge([(o[0], o[2]) for o in outs], tot, None))]
            return outs
        if fv.op == 'clo' and fv.a[0] in self.db.fns and len(self.stack) < self.maxdepth and fv.a[0] not in self.stack:
            f = self.db.fns[fv.a[0]]
            env = dict(self.envs[fv.a[1]])
            ne = len(self.events)
            self.stack.append(f['id'])
            rs = self.run_body(f, f, env, [fv] + args, st)
            self.stack.pop()
            for e in self.events[ne:]: e.cond = AND(reach, e.cond)
            return rs
        if fv.op == 'fn':
            targs = self.envs[fv.a[1]]
            path = fv.a[0]
            # constructors of tuple variants/structs
            con = self.ctor(path, args)
            if con is not None: return [(1, con, st)]
            c = {'path': path, 'args': list(targs)}
            tr = path.rsplit('::', 1)[0] if '::' in path else None
            if tr and (tr in self.db.bytrait or norm(path) in self.models): 
                if tr in self.db.bytrait: c['trait'] = tr
            return self.call_path(fr, c, args, st, reach, ln)
        vals = [self.deepval(st, self.val(st, a)) for a in args]
        return [self.opaque(fr, 'callv', [fv] + args, st, reach, ln, ())]
    def ctor(self, path, args):
        p = norm(path)
        if p in (OPT + '::Some',): return Some(args[0])
        if p == RES + '::Ok': return Ok(args[0])
        if p == RES + '::Err': return Err(args[0])
        if '::' in p:
            base, v = p.rsplit('::', 1)
            a = self.db.adts.get(base)
            if a and a['kind'] == 'enum':
                for vv in a['variants']:
                    if vv[0] == v: return agg(base, v, [x[0] for x in vv[2]], args)
            a = self.db.adts.get(p)
            if a and a['kind'] == 'struct' and a['variants'] and all(x[0].isdigit() for x in a['variants'][0][2]) and len(a['variants'][0][2]) == len(args):
                return agg(p, a['variants'][0][0], [x[0] for x in a['variants'][0][2]], args)
        return None

def outs_is_panic(outs): return False
class Frame: pass
class Region: pass
MREF = {}
LVN = {}
def mref(loc):
    root, path = loc
    key = repr((root if root[0] == 'L' else ('T', root[1].id), tuple(tuple(x.id if isinstance(x, Term) else x for x in e) for e in path)))
    t = T('mref', key)
    MREF[t] = loc
    return t
def has_mref(t):
    if t.op == 'mref': return True
    if t.op in ('clo', 'coro', 'tup', 'agg', 'arr', 'iter', 'map', 'filter', 'choice', 'raw'):
        return any(isinstance(x, Term) and has_mref(x) for x in t.a)
    return False
def mrefs_in(eng, st, t, d=0):
    if t.op == 'mref': return [t]
    if d < 4 and t.op in ('clo', 'coro', 'tup', 'agg', 'arr', 'iter', 'map', 'filter', 'raw', 'choice'):
        out = []
        for x in t.a:
            if isinstance(x, Term): out += mrefs_in(eng, st, x, d + 1)
        return out
    return []
FIT = None      # predicate: terms assumed to fit whatever they are narrowed to (lengths, in the encoding rules)
def trunc(v, w):
    if v.op == 'int': return I(v.a[0] & ((1 << w) - 1))
    if FIT is not None and FIT(v): return v
    if WIDTH.get(v, 64) <= w and v.op not in ('lin',): return v
    if v.op == 'trunc' and v.a[0] <= w: return v
    return T('trunc', w, v)
def c_eqint(d, v, w):
    if d.op == 'choice': return ORS(*[AND(c, c_eqint(x, v, w)) for c, x in alts(d)])
    if d.op == 'int': return 1 if d.a[0] == v else 0
    if d.op == 'cond': return d.a[0] if v == 1 else (NOT(d.a[0]) if v == 0 else 0)
    if d.op == 'never': return 0
    if d.op == 'lin': return c_eq(d, I(v))
    WIDTH.setdefault(d, w)
    if v == 0 and d.op in ('fold', 'bitor', 'bitxor'):
        z = is_zero(d)
        if z is not None: return z
    return bit_eqx(d, v, width(d))
def is_zero(t):
    """condition under which an integer built by or/xor, possibly accumulated over a collection, is zero"""
    if t.op == 'choice': return ORS(*[AND(c, is_zero(x)) for c, x in alts(t)])
    if t.op == 'int': return 1 if t.a[0] == 0 else 0
    if t.op == 'bitor': return AND(is_zero(t.a[0]), is_zero(t.a[1]))
    if t.op == 'bitxor':
        f = dist2(t.a[0], t.a[1], c_eq)
        if f is not None: return f
        c, m = lin_of(sub(t.a[0], t.a[1]))
        if not m: return 1 if c == 0 else 0
        return c_eq(sub(t.a[0], t.a[1]), I(0)) if len(m) == 1 else c_eq0(c, m)
    if t.op == 'fold' and t.a[2].op == 'bitor':
        acc = T('acc')
        for x, y in ((t.a[2].a[0], t.a[2].a[1]), (t.a[2].a[1], t.a[2].a[0])):
            if y is acc and not contains(x, lambda q: q is acc): return AND(is_zero(t.a[1]), mk_all(t.a[0], is_zero(x)))
    return bit_eqx(t, 0, width(t))
def ubound(t, d=0):
    """inclusive upper bound of a non-negative integer term"""
    if t.op == 'int': return t.a[0]
    if t.op == 'len' : return min((1 << 47) - 1, (1 << width(t)) - 1)      # no object exceeds the address space
    if t.op == 'idx': return (1 << 63) - 1
    if t.op == 'lin':
        r = t.a[0]
        for i in range(1, len(t.a), 2):
            if t.a[i + 1] > 0: r += t.a[i + 1] * ubound(t.a[i], d + 1)
        return r
    if t.op == 'choice': return max(ubound(x, d + 1) for _, x in alts(t))
    if t.op == 'bitand': return min(ubound(t.a[0]), ubound(t.a[1]))
    if t.op == 'trunc': return min((1 << t.a[0]) - 1, ubound(t.a[1]) if not t.a[1].op == 'lin' else (1 << t.a[0]) - 1)
    if t.op == 'cond': return 1
    return (1 << width(t)) - 1
def ovf(op, a, b, r, w):
    """condition under which the arithmetic wraps"""
    if op == 'Sub': return c_lt(a, b)
    if op in ('Add', 'Mul'):
        if r.op == 'mul': return bvar(T('ovf', op, a, b))
        if ubound(a) + ubound(b) < (1 << w) if op == 'Add' else ubound(a) * ubound(b) < (1 << w): return 0
        return NOT(c_le(r, I((1 << w) - 1)))
    if op in ('Shl', 'Shr') and is_int(b): return 0 if b.a[0] < w else 1
    return bvar(T('ovf', op, a, b))
def success(x):
    """condition under which `?` continues; for an opaque Try value"""
    if x.op == 'choice': return ORS(*[AND(c, success(y)) for c, y in alts(x)])
    if x.op == 'agg': return 1 if x.a[1] in ('Ok', 'Some', 'Continue') else 0
    return bvar(T('success', x))
def iterable(x):
    while x.op == 'iter': x = x.a[0]
    return x
def hasnext_cond(X):
    f = hasnext(iterable(X))
    v, = B.support(f)
    return v, None
def B_restrict(f, v, val): return B.restrict(f, v, val)
def B_depends(f, v): return v in B.support(f)
