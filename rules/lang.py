"""A small notation for specified values.

The rules for the crates that are analysed against dependency interfaces (tlsn-core, tlsn-attestation, ...) speak about the results of
calls into dependencies.  A specification such as

    hash_prefixed($0, $1, slice($2.value, 0, 16))

is turned into the engine's terms: `$n` are the arguments of the analysed function, `x.f` / `x.Variant.f` are projections, an operator
the engine knows denotes its own term, and any other name denotes the value of a call that the function makes to a callee of that
(short) name with those arguments.  A call the function does not make denotes an unmatched value: a comparison with it fails."""
import re
import mirval as V
import models as M
from rules import *

TOK = re.compile(r'\s*(\$\d+|\d+|"[^"]*"|[A-Za-z_][A-Za-z_0-9]*(?:::[A-Za-z_][A-Za-z_0-9]*)*|[(){}\[\],.:?@])')
class Lang:
    def __init__(self, ctx, s, **names):
        self.ctx = ctx; self.s = s; self.names = names; self.ix = {}; self.missing = []
        seen = set()
        def put(t):
            if not isinstance(t, Term): return
            for x in subterms(t):
                if x in seen: continue
                seen.add(x)
                if x.op == 'call': self.ix.setdefault(V.short(x.a[0]), []).append(x); self.ix.setdefault(x.a[0].split('::')[-1], []).append(x)
        put(s.ret)
        for e in s.events:
            for x in list(e.args) + [e.res]: put(x)
            for v in B.support(e.cond): put(ATOMS[v][1])
        for i in range(s.fn['argc']): put(s.final(s.args[i]))
        for l in s.engine.loops.values():
            for d in (l['init'], l['step']):
                for x in d.values(): put(x)
    def calls(self, name): return self.ix.get(name, [])
    def find(self, name, args):
        for x in self.ix.get(name, []):
            v = x.a[2:]
            if len(v) == len(args) and all(a is None or self.ctx.tdiff(y, a) is None for y, a in zip(v, args)): return x
        return None
    def __call__(self, text):
        self.t = TOK.findall(text); self.i = 0
        assert ''.join(self.t) == re.sub(r'\s', '', text) or '"' in text, text
        r = self.expr()
        assert self.i == len(self.t), (text, self.t[self.i:])
        return r
    def peek(self): return self.t[self.i] if self.i < len(self.t) else None
    def take(self, x=None):
        r = self.peek(); self.i += 1
        assert x is None or r == x, (r, x, self.t)
        return r
    def args(self, close=')'):
        out = []
        while self.peek() != close:
            out.append(self.expr())
            if self.peek() == ',': self.take()
        self.take(close)
        return out
    def expr(self):
        k = self.take()
        if k[0] == '$': r = self.s.args[int(k[1:])]
        elif k.isdigit(): r = I(int(k))
        elif k[0] == '"': r = T('str', k[1:-1])
        elif k == '(': r = T('tup', *self.args())
        elif k == '_': r = None
        elif k in self.names: r = self.names[k]
        elif self.peek() == '(':
            self.take(); r = self.op(k, self.args())
        elif self.peek() == '{':
            self.take(); vals = {}
            while self.peek() != '}':
                f = self.take(); self.take(':'); vals[f] = self.expr()
                if self.peek() == ',': self.take()
            self.take('}'); r = self.agg(k, vals)
        else: r = self.agg(k, {})
        while self.peek() == '.':
            self.take(); f = self.take()
            if f[0].isupper():
                self.take('.'); r = proj(r, ('f', f, self.take()))
            else: r = proj(r, ('f', None, f))
        return r
    def agg(self, k, vals):
        if k == 'None': return V.NONE
        db = self.ctx.db
        for cr in (self.ctx.crate, 'tlsn_core', 'tls_core'):
            for p in sorted(db.adts):
                if not p.startswith(cr + '::'): continue
                a = db.adts[p]
                if a['kind'] == 'enum' and '::' in k and p.endswith('::' + k.rsplit('::', 1)[0]):
                    for name, d, fs in a['variants']:
                        if name == k.rsplit('::', 1)[1]: return agg(a['path'], name, [f[0] for f in fs], [vals[f[0]] for f in fs])
                if a['kind'] == 'struct' and (p.endswith('::' + k)):
                    v = a['variants'][0]; names = [f[0] for f in v[2]]
                    if set(names) == set(vals): return agg(a['path'], v[0], names, [vals[n] for n in names])
        return T('call', '?type ' + k, '')
    def op(self, k, a):
        if k in ('Ok', 'Err', 'Some'): return {'Ok': V.Ok, 'Err': V.Err, 'Some': V.Some}[k](a[0])
        if k == 'len': return length(a[0])
        if k == 'slice': return V.mkslice(*a)
        if k == 'index': return proj(a[0], ('i', a[1]))
        if k == 'setsl': return V.update(a[0], [('sl', a[1], a[2])], a[3])
        if k == 'set': return V.update(a[0], [('f', None, a[1].a[0])], a[2])
        if k == 'add': return V.add(*a)
        if k == 'rep': return T('rep', *a)
        if k == 'elem': return V.elem(a[0])
        if k == 'acc': return T('acc')
        if k == 'lit': return T('bytes', a[0].a[0].encode().hex())
        if k == 'fold': return V.mk_fold(*a)
        if k == 'map': return M.materialize(T('map', a[0], a[1]))
        if k == 'setof': return T('setof', a[0], 'set')
        if k == 'eff': return T('eff', a[0], a[1].a[0])
        if k == 'seq': return V.mkseq([T('s', x) for x in a])
        r = self.find(k, a)
        if r is None:
            self.missing.append(k)
            return T('call', '?' + k, '', *[x if x is not None else T('undef', '_') for x in a])
        return r
    # conditions
    def eq(self, a, b): return c_eq(self(a) if isinstance(a, str) else a, self(b) if isinstance(b, str) else b)
    def le(self, a, b): return c_le(self(a) if isinstance(a, str) else a, self(b) if isinstance(b, str) else b)
    def true(self, a): return V.cond(self(a))
    def isok(self, a): return is_okish(self(a))
