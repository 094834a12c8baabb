"""Symbolic composition of encoders and decoders.

A nested `Codec::encode(T, v)` appends the segment enc<T>(v); a nested `Codec::read::<T>` that meets that segment yields v and
consumes exactly it (induction hypothesis: T itself is checked separately).  Everything else - integers, tags, length prefixes,
sub-readers, loops writing elements - is evaluated from the code."""
from rules import *
from mirval import *
import mirval as V, models

CODEC = 'tls_core::msgs::codec::Codec'
READER = 'tls_core::msgs::codec::Reader'
PRIM = ('u8', 'u16', 'u32', 'u64', 'tls_core::msgs::codec::u24')
def tyname(t): return tshow(t).replace(',alloc::alloc::Global', '')
def encseg(ty, v): return T('s', T('enc', ty, v))
class fits:
    """within: lengths (and the listed terms) are assumed to fit their prefix, so narrowing them is the identity"""
    def __init__(self, *terms): self.terms = set(terms)
    def __enter__(self):
        self.old = V.FIT
        V.FIT = lambda v: v in self.terms or V.contains(v, lambda y: y.op == 'len' or y in self.terms)
    def __exit__(self, *a): V.FIT = self.old

H = 'tls_core::msgs::handshake::'
# types whose decoder is only meaningful inside its container (it takes over after the container consumed a tag), or that consume
# everything: they are evaluated in place instead of by the induction hypothesis
INLINE = {H + 'OCSPCertificateStatusRequest', H + 'ServerHelloPayload', H + 'HelloRetryRequest', 'tls_core::msgs::base::Payload'}
def enc_hook(top, inline=INLINE):
    def h(eng, fr, np, f, env, args, st, reach, ln, ta):
        if np == CODEC + '::encode' and tyname(ta[0]) not in PRIM and tyname(ta[0]) not in inline and not (f and f['id'] == top):
            v = eng.deepval(st, eng.val(st, args[0]))
            cur = models.content(eng, st, args[1])
            new = lambda x: V.mkseq(V.as_seq(x) + [encseg(tyname(ta[0]), v)])
            nv = V.choice([(c, new(x)) for c, x in alts(cur)]) if cur.op == 'choice' else new(cur)
            return (1, V.UNIT, models.setv(eng, st, args[1], nv))
    return h
def get_reader(eng, st, a):
    r = eng.val(st, a)
    if r.op == 'agg' and r.a[0] == READER: return r
    if r.op in ('arg', 'lv', 'upd', 'fld'): return agg(READER, 'Reader', ['buf', 'offs'], [fld(r, 'buf'), fld(r, 'offs')])
    return None
def remaining(r):
    buf, offs = fld(r, 'buf'), fld(r, 'offs')
    return V.mkslice(buf, offs, V.length(buf))
def advance(eng, st, a, r, n):
    s = dict(st)
    nr = agg(READER, 'Reader', ['buf', 'offs'], [fld(r, 'buf'), V.add(fld(r, 'offs'), n)])
    eng.write(s, V.MREF[a], nr)
    return s
def dec_hook(top, inline=INLINE):
    def h(eng, fr, np, f, env, args, st, reach, ln, ta):
        if np == CODEC + '::read' and tyname(ta[0]) not in PRIM and tyname(ta[0]) not in inline and not (f and f['id'] == top):
            r = get_reader(eng, st, args[0])
            if r is None or args[0].op != 'mref': return (1, T('rdopaque', tyname(ta[0]), eng.val(st, args[0])), st)
            return branch(eng, st, args[0], r, lambda rem: read_seg(tyname(ta[0]), rem))
        if np == H + 'HandshakeMessagePayload::read_version' and not (f and f['id'] == top):
            r = get_reader(eng, st, args[0])
            if r is None or args[0].op != 'mref': return (1, T('rdopaque', np, eng.val(st, args[0])), st)
            vv = eng.deepval(st, eng.val(st, args[1]))
            def fn(rem):
                ps = parts(rem)
                if ps and ps[0].op == 's' and ps[0].a[0].op == 'enc' and ps[0].a[0].a[0] == H + 'HandshakeMessagePayload':
                    return T('rdv', H + 'HandshakeMessagePayload', vv, ps[0].a[0].a[1]), V.length(ps[0].a[0])
                return T('rd', H + 'HandshakeMessagePayload', vv, rem), T('rdlen', H + 'HandshakeMessagePayload', vv, rem)
            return branch(eng, st, args[0], r, fn)
        m = re.search(r'codec::read_vec_(u8|u16|u24_limited)$', np)
        if m:
            r = get_reader(eng, st, args[0])
            if r is None or args[0].op != 'mref': return (1, T('rdopaque', np, eng.val(st, args[0])), st)
            w = {'u8': 8, 'u16': 16, 'u24_limited': 24}[m.group(1)]
            lim = eng.val(st, args[1]) if len(args) > 1 else None
            return branch(eng, st, args[0], r, lambda rem: read_list(tyname(ta[0]), w, lim, rem))
    return h
def branch(eng, st, a, r, fn):
    rem = remaining(r)
    out = []
    for c, x in alts(rem):
        v, n = fn(x)
        for c2, v2 in alts(v):
            s = advance(eng, st, a, r, n)
            out.append((AND(c, c2), v2, s))
    return out
def parts(x): return V.as_seq(x)
def read_seg(ty, rem):
    ps = parts(rem)
    if ps and ps[0].op == 's' and ps[0].a[0].op == 'enc' and ps[0].a[0].a[0] == ty:
        return Some(ps[0].a[0].a[1]), V.length(ps[0].a[0])
    return T('rd', ty, rem), T('rdlen', ty, rem)
def read_list(ty, w, lim, rem):
    ps = parts(rem)
    if V.is_int(V.length(rem)) and V.length(rem).a[0] < w // 8: return V.NONE, I(0)
    n = None; k = 0
    if w == 8 and ps and ps[0].op == 'e': n = ps[0].a[0]; k = 1
    elif w != 8 and ps and ps[0].op == 's' and ps[0].a[0].op == 'be' and ps[0].a[0].a[0] == w: n = ps[0].a[0].a[1]; k = 1
    elif w != 8 and len(ps) >= w // 8 and all(p.op == 'e' for p in ps[:w // 8]) and all(is_int(p.a[0]) for p in ps[:w // 8]):
        n = I(int.from_bytes(bytes(p.a[0].a[0] for p in ps[:w // 8]), 'big')); k = w // 8
    if n is None: return T('rdvec', ty, w, rem), T('rdlen', ty, rem)
    ok = 1 if lim is None else V.c_le(n, lim)
    # collect the parts that the prefix announces
    tot = I(0); j = k
    while j < len(ps) and tot is not n:
        tot = V.add(tot, I(1) if ps[j].op == 'e' else V.length(ps[j].a[0])); j += 1
    if tot is not n: return T('rdvec', ty, w, rem), T('rdlen', ty, rem)
    body = ps[k:j]
    items = None
    if not body: items = T('seq')
    elif len(body) == 1 and body[0].op == 's' and body[0].a[0].op == 'flat':
        X, el = body[0].a[0].a
        if el.op == 'seq' and len(el.a) == 1 and el.a[0].op == 's' and el.a[0].a[0].op == 'enc' and el.a[0].a[0].a[0] == ty:
            v = el.a[0].a[0].a[1]
            items = X if v is V.elem(X) else T('coll', X, v)
    elif all(p.op == 's' and p.a[0].op == 'enc' and p.a[0].a[0] == ty for p in body): items = T('arr', *[p.a[0].a[1] for p in body])
    if items is None: return T('rdvec', ty, w, rem), T('rdlen', ty, rem)
    return V.choice([(ok, Some(items)), (NOT(ok), V.NONE)]), V.add(I(w // 8), n)

def encode(ctx, fid, selfv, extra=(), hook=None):
    """the bytes `fid` appends for value selfv (a seq term or a choice of them); None if not determined"""
    f = ctx.db.fns[fid]
    A = ctx.engine().symargs(f)
    A[0] = selfv
    bi = len(A) - 1
    s = ctx.summ(fid, args=A, hook=hook or enc_hook(fid))
    out = s.final(A[bi])
    res = []
    for c, x in alts(out):
        ps = parts(x)
        if not ps or ps[0] is not T('s', A[bi]): return None, s
        res.append((c, V.mkseq(ps[1:])))
    return V.choice(res), s
def reader_of(buf): return agg(READER, 'Reader', ['buf', 'offs'], [buf, I(0)])
def decode(ctx, fid, buf, extra=(), hook=None, rpos=None):
    """run the decoder on a buffer term; -> (summary, reader after)"""
    f = ctx.db.fns[fid]
    A = ctx.engine().symargs(f)
    rpos = next(i for i in range(f['argc']) if 'Reader' in str(f['locals'][i + 1][0])) if rpos is None else rpos
    for i, v in extra: A[i] = v
    rd = T('arg', 'reader', fid)
    A[rpos] = rd
    eng = ctx.engine(hook=hook or dec_hook(fid))
    # the reader is a fresh location holding a concrete value
    loc = ('T', rd)
    eng.init_state = {loc: reader_of(buf)}
    s = eng.summarize(fid, A, None)
    s.engine = eng; s.loc = ctx.loc(fid)
    ctx.functions |= eng.analysed; ctx.blocks += eng.blocks; ctx.calls += len(s.events)
    s.after = eng.read(s.state, (loc, ())) if s.state else None
    return s
def codec_impls(ctx):
    """(type, type name, encode fn, read fn) for every implementation of Codec"""
    out = []
    for im in ctx.db.bytrait.get(CODEC, []):
        it = dict((k, v) for k, v in im['items'])
        if 'encode' in it and 'read' in it and it['encode'] in ctx.db.fns and it['read'] in ctx.db.fns:
            out.append((im['args'][0], tyname(im['args'][0]), it['encode'], it['read']))
    return out
