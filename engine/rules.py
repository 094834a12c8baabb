"""Rule framework: obligations over function summaries with three-valued verdicts."""
import json, os, re, time
import mirval as V
from mirval import *
from bdd import *
import bdd as B
import linear

TRANSPARENT = {'rd', 'rdlen', 'rdvec', 'rdv', 'arg', 'fld', 'len', 'int', 'lin', 'slice', 'index', 'discr', 'str', 'bytes', 'tup', 'agg', 'arr', 'choice', 'cond', 'le0', 'eq', 'elem',
               'hasnext', 'trunc', 'unbe', 'be', 'seq', 'e', 's', 'static', 'const', 'bitand', 'bitor', 'bitxor', 'shr', 'shl', 'all', 'mul', 'zst', 'rep', 'upd', 'fmt', 'bebyte', 'filter', 'map', 'fn', 'idx', 'enum', 'zip', 'never', 'range', 'div', 'rem', 'chunks', 'coll', 'iter', 'rev', 'set0', 'seti', 'setin', 'distinct', 'mac', 'hmac', 'der', 'rnd', 'dns', 'isdns', 'keyok', 'last', 'insert'}

REARRANGE = re.compile(r'(Vec|VecDeque|<impl \[T\]>|<impl \[u8\]>|<impl str>)::(dedup\w*|sort\w*|reverse|rotate_(left|right)|make_ascii_(lower|upper)case)$')
class Finding(Exception): pass

class Ctx:
    def __init__(self, pid, db, known=()):
        self.pid = pid; self.db = db; V.DBG = db
        self.violations = []; self.unknowns = []; self.obl = []; self.functions = set(); self.anchors = []
        self.calls = 0; self.blocks = 0
        self.notes = []; self.missing = []; self.crate = 'tls_core'
    # --- reporting
    def ok(self, key): self.obl.append((key, 'discharged', ''))
    softened = None
    spec = ()    # subterms of the specified value being compared
    state = ()   # loop variables standing for an arbitrary state at the loop head
    def soft(self, why):
        """context in which differences are reported as undecided: the code has a shape for which the comparison is not exact"""
        class S:
            def __enter__(q): q.old, self.softened = self.softened, why or self.softened
            def __exit__(q, *a): self.softened = q.old
        return S()
    def bad(self, key, msg, where=None):
        if self.softened: return self.unk(key, '%s (not judged: %s)' % (msg, self.softened))
        self.obl.append((key, 'violated', msg)); self.violations.append(dict(key=key, msg=msg, where=where or ''))
    def unk(self, key, msg):
        self.obl.append((key, 'undecided', msg)); self.unknowns.append((key, msg))
    # --- anchors
    def fn(self, name, required=True):
        f = self.db.find(name) or self.db.find(self.crate + '::' + name)
        if f is None and name in self.db.fns: f = name
        if f is None:
            # moved: the same Type::name (or name) elsewhere, if there is only one
            tail = '::' + '::'.join(name.split('::')[-2:])
            c = [fid for fid in self.db.fns if norm(fid).endswith(tail) and '{closure' not in fid]
            if len(c) == 1: f = c[0]
        if f is None and required:
            self.unk('anchor:' + name, 'the function this rule is anchored in was not found'); self.missing.append(name)
            return None
        if f: self.anchors.append(f)
        return f
    def method(self, trait, selfpath, name, required=True):
        c = self.crate + '::'
        f = None
        for t in (trait, c + trait):
            for sp in (selfpath, c + selfpath): f = f or self.db.impl_method(t, sp, name)
        if (f is None or f not in self.db.fns) and required:
            self.bad('anchor:<%s as %s>::%s' % (selfpath, trait, name), 'the implementation this rule is anchored in no longer exists (rule fails closed)', selfpath)
            return None
        if f: self.anchors.append(f)
        return f
    def engine(self, stop=None, hook=None, maxdepth=14):
        if stop is None: sp = lambda f, e: False
        elif callable(stop): sp = stop
        else:
            rx = re.compile(stop)
            sp = lambda f, e: bool(rx.search(norm(f)))
        e = Engine(self.db, stop=sp, maxdepth=maxdepth)
        e.hook = hook; e.frame = getattr(self, 'frame', ())
        self.last = e
        return e
    def summ(self, fid, stop=None, hook=None, args=None, env=None, asyn=False, maxdepth=14):
        if fid is None: return None
        e = self.engine(stop, hook, maxdepth)
        s = (e.summarize_async if asyn else e.summarize)(fid, args, env)
        s.engine = e
        self.functions |= e.analysed; self.blocks += e.blocks; self.calls += len(s.events)
        s.loc = self.loc(fid)
        return s
    def loc(self, fid):
        f = self.db.fns.get(fid)
        return '%s (%s)' % (norm(fid), os.path.normpath(f.get('file', '?')).replace('pk/', '')) if f else fid
    # --- three-valued comparisons of conditions
    def vocab(self, f): return set(B.support(f))
    def opaque(self, v):
        k = ATOMS[v]
        t = k[1]
        if t.op == 'discr': t = t.a[0]
        return contains(t, lambda x: x.op not in TRANSPARENT)
    def leaves(self, v):
        out, todo = set(), [ATOMS[v][1]]
        while todo:
            t = todo.pop()
            if t.op not in TRANSPARENT and t.op not in ('le0', 'eq0', 'lin'): out.add(t)
            else: todo += [x for x in t.a if isinstance(x, V.Term)]
        return out
    def verdict(self, bad, actual, spec, strict=False, vocab=()):
        """'ok' | 'bad' | 'unk' for a non-trivial difference condition"""
        care = ANDS(valid2(actual), valid2(spec), valid2(bad))
        b = AND(bad, care)
        if b == 0: return 'ok', b
        if any(ATOMS[v][0] == 'b' and ATOMS[v][1].op == 'le0' for v in self.vocab(b)) and linear.feasible(b) is None: return 'ok', b
        known = self.vocab(spec) | set(vocab)
        U = [v for v in self.vocab(actual) if v not in known and self.opaque(v)]
        if U:
            # arithmetic over the very terms the specification speaks about is no unknown
            kl = set().union(*[self.leaves(v) for v in known]) if known else set()
            U = [v for v in U if not (ATOMS[v][0] == 'b' and ATOMS[v][1].op in ('le0', 'eq0') and self.leaves(v) <= kl)]
        if strict or not U: return 'bad', b
        supp = self.vocab(actual)
        if all(v in supp for v in self.vocab(spec)): return 'bad', b
        # a difference that persists for every value of the unknown atoms
        r = b
        for v in U: r = AND(B.restrict(r, v, 0), B.restrict(r, v, 1))
        if r != 0: return 'bad', r
        return 'unk', b
    def require(self, key, okc, g, msg, where='', strict=False, vocab=()):
        """okc must imply g"""
        v, b = self.verdict(AND(okc, NOT(g)), okc, g, strict, vocab)
        if v == 'ok': self.ok(key); return True
        if v == 'bad': self.bad(key, '%s: reachable when %s' % (msg, showc(b, lim=2)[:1500]), where)
        else: self.unk(key, '%s: undecided when %s' % (msg, showc(b, lim=1)[:300]))
        return False
    def same(self, key, actual, spec, msg, where='', strict=False, care=1, vocab=()):
        v, b = self.verdict(AND(care, XOR(actual, spec)), actual, spec, strict, vocab)
        if v == 'ok': self.ok(key); return True
        if v == 'bad': self.bad(key, '%s: differs when %s' % (msg, showc(b, lim=2)[:1500]), where)
        else: self.unk(key, '%s: undecided when %s' % (msg, showc(b, lim=1)[:300]))
        return False
    # --- three-valued comparison of values
    def tdiff(self, a, b, care=1, d=0, known=None):
        """None if equal under care; ('bad'|'unk', description) otherwise.  a actual, b specified"""
        if a.op == 'seq': a = V.unseq(a)
        if b.op == 'seq': b = V.unseq(b)
        if a is b: return None
        if a.op in V.INTISH and b.op in V.INTISH and (a.op == 'lin' or b.op == 'lin'):
            if all(linear.feasible(AND(care, x)) is None for x in (c_le(V.add(a, I(1)), b), c_le(V.add(b, I(1)), a))): return None
        if d > 40: return ('unk', 'depth')
        if a.op in ('choice', 'cond') or b.op in ('choice', 'cond'):
            worst = None
            for c, x in alts(a):
                for c2, y in alts(b):
                    cc = AND(AND(c, c2), care)
                    if cc == 0 or AND(cc, valid2(cc)) == 0: continue
                    r = self.tdiff(x, y, cc, d + 1, known)
                    if r is None: continue
                    # is the overlap real, i.e. free of unknown atoms?
                    U = [v for v in self.vocab(cc) if (known is not None and v not in known) and self.opaque(v)]
                    r = ('unk' if U and r[0] == 'bad' and not known is None else r[0], '%s  [when %s]' % (r[1], showc(cc, lim=1)[:400]) if ' [when' not in r[1] else r[1])
                    if r[0] == 'bad': return r
                    worst = r
            return worst
        if a.op == 'agg' and b.op == 'agg':
            if a.a[0] != b.a[0] or a.a[1] != b.a[1]: return ('bad', '%s instead of %s' % (show(a)[:200], show(b)[:200]))
            n = a.a[2].split(',') if a.a[2] else []
            nb = b.a[2].split(',') if b.a[2] else []
            if n == nb:
                for k, x, y in zip(n, a.a[3:], b.a[3:]):
                    r = self.tdiff(x, y, care, d + 1, known)
                    if r: return (r[0], '.%s: %s' % (k, r[1]))
                return None
        if a.op == b.op == 'seq' and a is not b and sorted(x.id for x in a.a) == sorted(x.id for x in b.a):
            return ('bad', 'another order: %s instead of %s' % (show(a)[:200], show(b)[:200]))
        if a.op == b.op and a.op in ('tup', 'arr', 'e', 's', 'seq', 'fld', 'elem', 'slice', 'index', 'len', 'be', 'unbe', 'trunc', 'bebyte', 'iter', 'upd', 'coll', 'map', 'filter', 'fold', 'rep') and len(a.a) == len(b.a):
            for x, y in zip(a.a, b.a):
                if isinstance(x, Term):
                    r = self.tdiff(x, y, care, d + 1, known)
                    if r: return r
                elif x != y: return self.leaf(a, b)
            return None
        # a slice that covers the whole of its base
        for x, y, sw in ((a, b, 0), (b, a, 1)):
            if x.op == 'slice' and x.a[0] is y and V.is_int(x.a[1]) and x.a[1].a[0] == 0:
                if AND(care, NOT(c_eq(length(y), x.a[2]))) == 0: return None
        # eta: a struct rebuilt from the fields of the specified value
        for x, y, sw in ((a, b, 0), (b, a, 1)):
            if x.op == 'agg' and y.op in ('arg', 'fld', 'elem', 'index') and self.is_struct(x.a[0]):
                for k, v in zip(x.a[2].split(',') if x.a[2] else [], x.a[3:]):
                    w = proj(y, ('f', None, k))
                    r = self.tdiff(w, v, care, d + 1, known) if sw else self.tdiff(v, w, care, d + 1, known)
                    if r: return (r[0], '.%s: %s' % (k, r[1]))
                return None
        if a.op == 'call' and b.op == 'call' and a.a[0] == b.a[0] and len(a.a) == len(b.a):
            for i, (x, y) in enumerate(zip(a.a[2:], b.a[2:])):
                r = self.tdiff(x, y, care, d + 1, known)
                if r: return (r[0], 'argument %d of %s: %s' % (i, short(a.a[0]), r[1]))
            if a.a[1] != b.a[1]: return ('unk', 'different instance of %s' % a.a[0])
            return None
        return self.leaf(a, b)
    def is_struct(self, path):
        a = self.db.adts.get(path)
        return bool(a) and a['kind'] == 'struct'
    def leaf(self, a, b):
        d = '%s instead of %s' % (show(a)[:300], show(b)[:300])
        # rearranging or thinning out a sequence of arbitrary length is not the identity
        if a.op == 'eff' and a.a[0].op == 'call' and REARRANGE.search(a.a[0].a[0]) and any(x is b for x in a.a[0].a[1:]): return ('bad', d)
        sb = subterms(b)
        for x in subterms(a):
            if x.op not in TRANSPARENT and x not in sb and x not in self.state and x not in self.spec: return ('unk', d)
        return ('bad', d)
    def value(self, key, a, b, msg, where='', care=1, strict=False, known=None):
        if a is None or b is None:
            self.unk(key, msg + ': not computed'); return False
        self.spec = subterms(b)
        r = self.tdiff(a, b, care, 0, known)
        if r is None: self.ok(key); return True
        if r[0] == 'bad' or strict: self.bad(key, '%s: %s' % (msg, r[1][:1200]), where)
        else: self.unk(key, '%s: %s' % (msg, r[1][:300]))
        return False
    def returns(self, key, s, spec, msg, strict=False, vocab=()):
        """exact functional specification of the return value: [(cond, term)]"""
        sp = choice(spec)
        tot = ORS(*[c for c, _ in spec])
        known = set(vocab)
        for c, _ in spec: known |= self.vocab(c)
        supp = set()
        for c, _ in alts(s.ret): supp |= self.vocab(c)
        # a spec condition whose atoms all still occur leaves no room for a re-expression
        if all(v in supp for c, _ in spec for v in self.vocab(c)): known = None
        return self.value(key, s.ret, sp, msg, s.loc, care=tot, strict=strict, known=known)
    # --- events
    def events(self, s, rx, kinds=('call', 'inl')):
        r = re.compile(rx)
        return [e for e in s.events if e.kind in kinds and (r.search(e.path) or (e.fnid and r.search(norm(e.fnid))))]

_v2 = {}
def valid2(f):
    r = _v2.get(f)
    if r is None:
        r = valid(f)
        for v in B.support(f):
            k = ATOMS[v]
            if k[0] == 'b' and k[1].op == 'all':
                # vacuous over an empty collection
                X = k[1].a[0]
                r = AND(r, OR(NOT(c_eq(length(X), I(0))), var(v)))
                r = AND(r, OR(hasnext(X), var(v)) if hasnext(X) in [var(x) for x in B.support(f)] else 1)
            if k[0] == 'b' and k[1].op == 'hasnext':
                X = k[1].a[0]
                r = AND(r, OR(NOT(c_eq(length(X), I(0))), NOT(var(v))))
        _v2[f] = r
    return r

def under(v, k):
    """the value when k holds"""
    for _ in range(6):
        m = {}
        for x in subterms(v):
            if x.op == 'choice':
                al = [(c, t) for c, t in alts(x) if AND(AND(c, k), valid2(AND(c, k))) != 0]
                if len(al) == 1: m[x] = al[0][1]
        if not m: return v
        m['all'] = 1
        w = V.subst(v, m, {})
        if w is v: return v
        v = w
    return v
# --- specification vocabulary
def fld(t, path):
    for p in path.split('.'):
        if ':' in p:
            v, p = p.split(':'); t = proj(t, ('f', v, p))
        else: t = proj(t, ('f', None, p))
    return t
OPTION_OPS = {'rd', 'rdvec', 'rdv'}       # opaque results known to be options
def okcond(s):
    """condition under which the summary returns Ok/Some"""
    r = 0
    for c, t in alts(s.ret):
        r = OR(r, AND(c, is_okish(t)))
    return r
def is_okish(t):
    if t.op == 'choice': return ORS(*[AND(c, is_okish(x)) for c, x in alts(t)])
    if t.op == 'agg': return 1 if t.a[1] in ('Ok', 'Some') else 0
    if t.op == 'never': return 0
    if t.op in OPTION_OPS: return c_is(t, V.OPT, 'Some')
    return is_ok(t)
def errcond(s):
    """condition under which the summary returns Err/None (a function that may also not return has NOT(okcond) larger)"""
    return ORS(*[AND(c, NOT(is_okish(t))) for c, t in alts(s.ret)])
def okval(s):
    out = []
    for c, t in alts(s.ret):
        if t.op == 'agg':
            if t.a[1] in ('Ok', 'Some'): out.append((c, t.a[3]))
        elif t.op in OPTION_OPS: out.append((AND(c, c_is(t, V.OPT, 'Some')), fld(t, 'Some:0')))
        else: out.append((AND(c, is_ok(t)), okv(t)))
    if not out: return None
    tot = ORS(*[c for c, _ in out])
    return choice([(constrain(c, tot), t) for c, t in out])
def discr_is(t, adt, *names): return ORS(*[c_is(t, adt, n) for n in names])

# --- call obligations
def pure_call(eng, path, args, targs=()):
    """the value term the engine gives to an opaque call"""
    return None

class Calls:
    """the calls to one callee in a summary, split by whether their arguments are the specified ones"""
    def __init__(self, ctx, s, rx, spec, kinds=('call',)):
        self.ctx = ctx; self.rx = rx
        self.evs = ctx.events(s, rx, kinds)
        self.good = []; self.bad = []; self.unk = []
        for e in self.evs:
            r = None
            for i, a in enumerate(spec):
                if a is None: continue
                if callable(a):
                    x = a(e.args[i]) if i < len(e.args) else ('bad', 'missing argument')
                else: x = ctx.tdiff(e.args[i], a, e.cond) if i < len(e.args) else ('bad', 'missing argument')
                if x is not None:
                    r = (x[0], 'argument %d of %s: %s' % (i, short(e.path), x[1]), e)
                    if x[0] == 'bad': break
            if r is None: self.good.append(e)
            elif r[0] == 'bad': self.bad.append(r)
            else: self.unk.append(r)
    def where(self): return ORS(*[e.cond for e in self.good])
    def ok(self, pred=is_ok): return ORS(*[AND(e.cond, pred(e.res)) for e in self.good])

def need_call(ctx, key, s, okc, rx, spec, msg, pred=is_ok, kinds=('call',)):
    """acceptance implies that the named primitive was called on exactly the specified arguments and succeeded"""
    if s is None: return None
    C = Calls(ctx, s, rx, spec, kinds)
    g = C.ok(pred)
    miss = AND(okc, NOT(g))
    miss = AND(miss, valid2(miss))
    if miss == 0: ctx.ok(key); return C
    for k, d, e in C.bad:
        if AND(miss, e.cond) != 0 or True:
            ctx.bad(key, '%s: %s' % (msg, d[:900]), '%s:%s' % (norm(e.fn), short(e.path))); return C
    for k, d, e in C.unk:
        ctx.unk(key, '%s: %s' % (msg, d[:300])); return C
    if not C.evs and any(ev.kind == 'opaque' for ev in s.events):
        pass
    ctx.bad(key, '%s: %s; acceptance is reachable without it when %s' % (msg, 'no such call' if not C.evs else 'its result does not guard acceptance', showc(miss, lim=1)[:900]), s.loc)
    return C

def variants(ctx, adt):
    a = ctx.db.adts.get(adt) or ctx.db.adts.get(ctx.crate + '::' + adt)
    return a
def enum_values(ctx, adt, sym):
    """[(variant name, term)] for every variant of an enum; payload fields are projections of `sym`"""
    a = variants(ctx, adt)
    if a is None:
        ctx.bad('anchor:' + adt, 'type no longer exists (rule fails closed)', adt); return []
    out = []
    for name, d, fs in a['variants']:
        out.append((name, agg(a['path'], name, [f[0] for f in fs], [T('arg', 'payload', name, f[0]) for f in fs])))
    return out
def struct(ctx, adt, vals):
    a = variants(ctx, adt)
    if a is None:
        ctx.bad('anchor:' + adt, 'type no longer exists (rule fails closed)', adt); return None
    v = a['variants'][0]
    names = [f[0] for f in v[2]]
    return agg(a['path'], v[0], names, [vals[n] for n in names])
def restruct(ctx, adt, base, **over):
    """struct value equal to `base` except for some fields"""
    a = variants(ctx, adt)
    if a is None:
        ctx.bad('anchor:' + adt, 'type no longer exists (rule fails closed)', adt); return None
    v = a['variants'][0]
    names = [f[0] for f in v[2]]
    for k in over:
        if k not in names:
            ctx.bad('anchor:%s.%s' % (adt, k), 'field no longer exists (rule fails closed)', adt); return None
    return agg(a['path'], v[0], names, [over.get(n, proj(base, ('f', None, n))) for n in names])
