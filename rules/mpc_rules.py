"""Rules for tlsn-mpc-tls (M01-M04, M07, M08).  The crate is analysed against interface stubs of the dependencies that are not present
here (the joint computation itself, `mpz-*`, is an opaque value of its arguments).  Async functions are analysed as their bodies; another
task can run only where they await, and every state touched here is owned by the one value the function borrows exclusively."""
from lang import *
from core_rules import peel, column, coll_, same_int

MT = 'mpc_tls::'; RL = MT + 'record_layer::RecordLayer::'
CT = 'tls_core::msgs::enums::ContentType'
HEAVY = (r'record_layer::decrypt::(decrypt_mpc|decrypt_local|verify_tags)$|record_layer::encrypt::encrypt$|record_layer::aes_gcm::AesGcm::|MpcAesGcm::'
         r'|VerifyTags|ComputeTags|::try_encrypt$|::try_decrypt$')
# --- conditions over outcomes of the environment
# The path conditions of a session contain outcomes of locks, of the network and of the joint computation.  They are free as long as they say
# nothing about what the requirement speaks of: an atom is unrelated when it depends on none of the values (access paths) of the
# requirement.  Unrelated atoms may take the value that exhibits the difference; on related ones it has to persist for both.
def chain(t):
    p = []
    while t.op == 'fld': p.append(t.a[1:]); t = t.a[0]
    return t, tuple(reversed(p))
def paths(t, out):
    """access paths a term depends on, as (root, path, only the variant is inspected)"""
    todo = [(t, False, True)]
    while todo:
        x, d, bare = todo.pop()
        if x.op == 'discr': todo.append((x.a[0], True, bare)); continue
        r, p = chain(x)
        if r.op in ('arg', 'lv', 'call', 'await', 'callv'):
            out.add((r, p, d, bare))
            if r.op in ('arg', 'lv'): continue
            bare = False
        todo += [(y, False, bare) for y in r.a if isinstance(y, V.Term)]
    return out
def direct(t, out):
    """the access paths a term is made of (without those that calls were made with)"""
    todo = [t]
    while todo:
        x = todo.pop()
        if x.op == 'discr': x = x.a[0]
        r, p = chain(x)
        if r.op in ('arg', 'lv', 'call', 'await', 'callv'): out.add((r, p))
        else: todo += [y for y in r.a if isinstance(y, V.Term)]
    return out
def verdict(ctx, bad, actual, spec, strict=False, vocab=()):
    v, b = Ctx.verdict(ctx, bad, actual, spec, strict, vocab)
    if v != 'unk': return v, b
    known = ctx.vocab(spec) | set(vocab)
    target = set()
    for k in known: direct(V.ATOMS[k][1], target)
    if not target: return v, b
    U = [k for k in ctx.vocab(actual) if k not in known and ctx.opaque(k)]
    kl = set().union(*[ctx.leaves(k) for k in known])
    U = [k for k in U if not (V.ATOMS[k][0] == 'b' and V.ATOMS[k][1].op in ('le0', 'eq0') and ctx.leaves(k) <= kl)]
    free = getattr(ctx, 'free', set())
    eqs = [V.ATOMS[k][1] for k in U + list(known) if V.ATOMS[k][1].op == 'eq']
    def linked(x, y, without):
        """are x and y connected through other equalities?"""
        seen, todo = {x}, [x]
        while todo:
            z = todo.pop()
            for e in eqs:
                if e is not without and z in e.a:
                    w = e.a[1] if e.a[0] is z else e.a[0]
                    if w not in seen: seen.add(w); todo.append(w)
        return y in seen
    meet = lambda x, y: any(r is R and p[:min(len(p), len(P))] == P[:min(len(p), len(P))] for r, p in direct(x, set()) for R, P in direct(y, set()))
    pure = lambda x: not contains(x, lambda y: y.op not in TRANSPARENT and y.op not in ('lv', 'call', 'await', 'arg', 'fld')) 
    targets = [V.ATOMS[j][1] for j in known if ctx.opaque(j)]
    def related(k):
        t = V.ATOMS[k][1]
        if t.op == 'eq' and pure(t) and targets and all(x.op == 'eq' for x in targets):
            # the equality of two free values says something about that of two others only through a common one
            return any(linked(e.a[0], e.a[1], e) or (meet(e.a[0], t.a[0]) and meet(e.a[1], t.a[1])) or (meet(e.a[0], t.a[1]) and meet(e.a[1], t.a[0])) for e in targets)
        for r, p, d, bare in paths(t, set()):
            if bare and r.op == 'lv' and r not in free and not any(r is R for R, P in target) and any(R.op == 'lv' for R, P in target): return True
            for R, P in target:
                if R is not r: continue
                n = min(len(p), len(P))
                if p[:n] == P[:n] and not (d and len(p) < len(P)): return True
        return False
    r = b
    for k in U:
        x, y = B.restrict(r, k, 0), B.restrict(r, k, 1)
        r = AND(x, y) if related(k) else OR(x, y)
        if r == 0: return 'unk', b
    if linear.feasible(r) is None: return 'unk', b
    return ('bad', r) if AND(r, valid2(r)) != 0 else ('unk', b)
def start(ctx):
    ctx.crate = 'mpc_tls'
    ctx.verdict = lambda *a, **k: verdict(ctx, *a, **k)
def adt(ctx, tail):
    for a in ctx.db.adts:
        if a == MT + tail: return a
def pushed(v, base):
    """the elements appended to `base` to obtain v; None when v is something else"""
    v = peel(v) if v.op == 'eff' else v
    if v is base: return []
    if v.op == 'seq' and v.a and v.a[0].op == 's' and v.a[0].a[0] is base: return [p.a[0] if p.op == 'e' else None for p in v.a[1:]]
    return None
def online(f): return f
def after(s, ok, i=0): return under(s.final(s.args[i]), ok)
def unchanged_but(ctx, key, s, fin, base, fields, ok, msg):
    """fields (name -> expected value) of the final value of `base`"""
    for n, want in fields.items(): ctx.value('%s.%s' % (key, n), fld(fin, n), want, '%s: %s' % (msg, n), s.loc, care=ok)
def record_op(ctx, key, s, ok, buf):
    """the one operation queued by a push function"""
    fin = after(s, ok)
    b = fld(fin, buf); base = fld(s.args[0], buf)
    p = pushed(b, base)
    if p is None or len(p) != 1 or p[0] is None:
        if p == [] : ctx.bad(key, 'the record is accepted without being queued in %s' % buf, s.loc)
        else: ctx.unk(key, 'queue %s becomes %s' % (buf, show(b)[:200]))
        return None
    return p[0]
def probe(ctx): start(ctx); return ctx

PUSH = {'push_encrypt': ('encrypt_buffer', 'write_seq', 'sent', 'max_sent', 'EncryptMode'),
        'push_decrypt': ('decrypt_buffer', 'read_seq', 'recv', 'max_recv', 'DecryptMode')}
def pushes(ctx, nm):
    f = ctx.fn(RL + nm)
    s = ctx.summ(f)
    return (s, okcond(s)) if s else None
def length_of(s, nm):
    """the number of plaintext bytes a queued record counts for"""
    return s.args[3] if nm == 'push_encrypt' else length(s.args[4])
def states(ctx): return adt(ctx, 'record_layer::State')
def methods(ctx):
    """every function of the record layer"""
    return [f for f in sorted(ctx.db.fns) if f.startswith(RL) and '{closure' not in f]
def is_async(ctx, f): return bool(ctx.db.fns[f].get('async'))
def whole(ctx, f, stop=HEAVY):
    return ctx.summ(f, stop=stop, asyn=is_async(ctx, f))

def M02(ctx):
    """traffic limits"""
    start(ctx)
    for nm, (buf, seq, cnt, mx, _) in PUSH.items():
        r = pushes(ctx, nm)
        if not r: continue
        s, ok = r; me = s.args[0]; n = length_of(s, nm)
        ctx.require('%s.limit' % nm, ok, V.c_le(V.add(fld(me, cnt), n), fld(me, mx)), '%s: a record is accepted beyond %s' % (nm, mx), s.loc)
        fin = after(s, ok)
        ctx.value('%s.count' % nm, fld(fin, cnt), V.add(fld(me, cnt), n), '%s: the bytes counted after a record was accepted' % nm, s.loc, care=ok)
        ctx.require('%s.buffer' % nm, ok, V.c_le(length(fld(me, buf)), I(1 << 16)), '%s: a record is queued whatever the number of records already queued' % nm, s.loc)
    f = ctx.fn(RL + 'flush')
    s = whole(ctx, f)
    if s:
        me, dec = s.args[0], s.args[3]
        ok = okcond(s)
        d = var_of(dec)
        spent = [e for e in ctx.events(s, r'decrypt::decrypt_mpc$')]
        if not spent: ctx.unk('flush.online', 'no joint decryption found')
        for e in spent:
            w = AND(e.cond, d)
            total = sums(ctx, s, fld(me, 'decrypt_buffer'))
            if total is None: ctx.unk('flush.online', 'no total of the lengths of the records decrypted'); break
            ctx.require('flush.online', w, V.c_le(V.add(fld(me, 'recv_online'), total), fld(me, 'max_recv_online')), 'more bytes are decrypted jointly than were agreed', s.loc)
            fin = after(s, AND(w, ok))
            ctx.value('flush.count', fld(fin, 'recv_online'), V.add(fld(me, 'recv_online'), total), 'bytes counted as decrypted jointly', s.loc, care=AND(w, ok))
    f = ctx.fn(RL + 'alloc')
    s = ctx.summ(f, stop=HEAVY)
    if s:
        me = s.args[0]; ok = okcond(s); fin = after(s, ok)
        for mx, i in (('max_sent', 4), ('max_recv_online', 5), ('max_recv', 6)):
            ctx.value('alloc.' + mx, fld(fin, mx), V.add(fld(me, mx), s.args[i]), 'the limit %s set when the record layer is allocated' % mx, s.loc, care=ok)
        for what, en, rec, ln in (('encrypt', 'encrypter', 2, 4), ('decrypt', 'decrypter', 3, 5)):
            es = [e for e in ctx.events(s, r'MpcAesGcm::alloc$') if contains(e.args[0], lambda x, en=en: x is fld(me, en))]
            if len(es) != 1: ctx.unk('alloc.' + what, '%d allocations of the %s' % (len(es), en)); continue
            ctx.value('alloc.%s.records' % what, es[0].args[2], s.args[rec], 'records the %s is allocated for' % en, s.loc, care=ok)
            ctx.value('alloc.%s.bytes' % what, es[0].args[3], s.args[ln], 'bytes the %s is allocated for' % en, s.loc, care=ok)
    counters(ctx, ('max_sent', 'max_recv', 'max_recv_online'), ('new', 'alloc'), 'the agreed limit')
    f = ctx.fn(RL + 'new'); s = ctx.summ(f)
    if s:
        for n in ('sent', 'recv', 'recv_online', 'max_sent', 'max_recv', 'max_recv_online'):
            ctx.value('new.' + n, fld(s.ret, n), I(0), 'a new record layer starts with %s' % n, s.loc)
    f = ctx.fn(MT + 'utils::alloc_session')
    s = ctx.summ(f, stop=HEAVY + r'|RecordLayer::alloc$|Prf::|KeyExchange::|RecordLayer::set_keys$')
    if s:
        es = ctx.events(s, r'RecordLayer::alloc$'); cfg = s.args[1]
        if len(es) != 1: ctx.unk('session', '%d allocations of the record layer' % len(es))
        else:
            for i, n in enumerate(('max_sent_records', 'max_recv_records_online', 'max_sent', 'max_recv_online', 'max_recv')):
                ctx.value('session.' + n, es[0].args[2 + i], fld(cfg, n), 'the record layer is allocated with the configured %s' % n, s.loc)
def var_of(t):
    """a boolean value as a condition"""
    return V.cond(t)
def sums(ctx, s, buf):
    """the term that totals the ciphertext lengths of the queued records"""
    for e in s.events:
        if e.kind == 'call' and e.path.split('::')[-1] == 'sum' and e.res is not None and contains(e.args[0], lambda x: x is buf):
            x = e.args[0]
            if x.op == 'iter': x = x.a[0]
            if x.op == 'map' and x.a[1].op == 'len' and x.a[1].a[0].op == 'fld' and x.a[1].a[0].a[-1] == 'ciphertext': return e.res
            if x.op == 'map' and contains(x.a[1], lambda y: y.op == 'fld' and y.a[-1] == 'ciphertext'): return e.res
    return None
def counters(ctx, fields, writers, what):
    """no other method of the record layer changes the fields"""
    for f in methods(ctx):
        nm = f[len(RL):]
        if nm in writers or ctx.db.fns[f]['argc'] == 0: continue
        s = whole(ctx, f)
        if s is None: continue
        fin = s.final(s.args[0])
        for n in fields:
            v = kept(s, fld(fin, n), n)
            if v is fld(s.args[0], n): ctx.ok('%s.%s' % (nm, n))
            else: ctx.value('%s.%s' % (nm, n), v, fld(s.args[0], n), '%s %s is changed by %s' % (what, n, nm), s.loc)
def kept(s, v, n, depth=0):
    """v with the field n of a value carried through a loop replaced by what it was before, when no round changes it"""
    m = {}
    for x in subterms(v):
        if x.op == 'fld' and x.a[-1] == n and x.a[0].op == 'lv':
            l = s.engine.loops.get(x.a[0].a[0])
            if l and x.a[0] in l['init'] and x.a[0] in l['step'] and kept_step(s, fld(l['step'][x.a[0]], n), x, n): m[x] = fld(l['init'][x.a[0]], n)
    if not m or depth > 4: return v
    m['all'] = 1
    return kept(s, V.subst(v, m, {}), n, depth + 1)
def kept_step(s, v, x, n):
    if v is x: return True
    return v.op == 'choice' and all(kept_step(s, t, x, n) for c, t in alts(v))

def M04(ctx):
    """sequence numbers and nonces"""
    start(ctx)
    aadf = ctx.fn('tls_core::cipher::make_tls12_aad')
    for nm, (buf, seq, cnt, mx, _) in PUSH.items():
        r = pushes(ctx, nm)
        if not r: continue
        s, ok = r; me = s.args[0]
        op = record_op(ctx, nm + '.queued', s, ok, buf)
        if op is None: continue
        q = fld(me, seq)
        ctx.value(nm + '.seq', fld(op, 'seq'), q, '%s: the sequence number of the record' % nm, s.loc, care=ok)
        ctx.value(nm + '.next', fld(after(s, ok), seq), V.add(q, I(1)), '%s: the next sequence number' % nm, s.loc, care=ok)
        other = 'read_seq' if seq == 'write_seq' else 'write_seq'
        ctx.value(nm + '.other', fld(after(s, ok), other), fld(me, other), '%s: the sequence number of the other direction' % nm, s.loc, care=ok)
        if nm == 'push_encrypt': ctx.value(nm + '.nonce', fld(op, 'explicit_nonce'), T('be', 64, q), 'the explicit nonce of a sent record', s.loc, care=ok)
        else: ctx.value(nm + '.nonce', fld(op, 'explicit_nonce'), s.args[3], 'the explicit nonce of a received record', s.loc, care=ok)
        a = ctx.summ(aadf, args=[q, s.args[1], s.args[2], length_of(s, nm)])
        if a: ctx.value(nm + '.aad', fld(op, 'aad'), a.ret, '%s: the additional data of the record' % nm, s.loc, care=ok)
        ctx.value(nm + '.typ', fld(op, 'typ'), s.args[1], '%s: the type of the record' % nm, s.loc, care=ok)
    s = ctx.summ(ctx.fn(RL + 'new'))
    if s:
        for n in ('write_seq', 'read_seq'): ctx.value('new.' + n, fld(s.ret, n), I(0), 'a new record layer starts with %s' % n, s.loc)
    counters(ctx, ('write_seq', 'read_seq'), ('new', 'push_encrypt', 'push_decrypt', 'next_write', 'next_read'), 'the sequence number')
    use(ctx)
def use(ctx):
    """the nonce and additional data of an operation are those its record is encrypted and tagged with"""
    for fn, keyed in (('record_layer::encrypt::encrypt', 'compute_tags'), ('record_layer::decrypt::decrypt_mpc', None), ('record_layer::decrypt::verify_tags', 'verify_tags')):
        f = ctx.fn(MT + fn)
        s = ctx.summ(f, stop=r'MpcAesGcm::')
        if not s: continue
        nm = fn.split('::')[-1]
        ops = s.args[-1]
        for e in ctx.events(s, r'MpcAesGcm::(apply|take)_keystream$'):
            n = e.args[2]
            if n.op == 'fld' and n.a[-1] == 'explicit_nonce' and n.a[0].op == 'elem' and n.a[0].a[0] is ops: ctx.ok(nm + '.nonce')
            elif contains(n, lambda x: x is ops) and not contains(n, lambda x: x.op == 'fld' and x.a[-1] == 'explicit_nonce'): ctx.bad(nm + '.nonce', 'the keystream is taken for %s instead of the nonce of the record' % show(n)[:200], s.loc)
            elif not contains(n, lambda x: x.op in ('elem', 'call', 'callv', 'lv', 'eff', 'arg')): ctx.bad(nm + '.nonce', 'the keystream is taken for a constant nonce, %s' % show(n)[:100], s.loc)
            else: ctx.unk(nm + '.nonce', 'keystream nonce %s' % show(n)[:160])
            if not contains(e.args[3], lambda x: x is n.a[0] if n.op == 'fld' else False): ctx.unk(nm + '.len', 'keystream length %s' % show(e.args[3])[:160])
        if keyed:
            es = ctx.events(s, 'MpcAesGcm::%s$' % keyed)
            if len(es) != 1: ctx.unk(nm + '.tags', '%d calls' % len(es)); continue
            d = es[0].args[3] if keyed == 'compute_tags' else es[0].args[2]
            tag_columns(ctx, nm, s, d, ops)
def tag_columns(ctx, nm, s, d, ops):
    el = None
    if d.op == 'seq' and len(d.a) == 1 and d.a[0].op == 's': d = d.a[0].a[0]
    if d.op == 'coll' and d.a[0] is ops: el = d.a[1]
    elif d.op == 'map' and d.a[0] is ops: el = d.a[1]
    if some_of(d, ops): ctx.bad(nm + '.tagdata', 'the data of the tags is not that of every record, in order: %s' % show(d)[:160], s.loc); return
    if el is None: ctx.unk(nm + '.tagdata', 'tag data %s' % show(d)[:200]); return
    e = [x for x in subterms(el) if x.op == 'elem' and x.a[0] is ops]
    for n in ('explicit_nonce', 'aad'):
        v = fld(el, n)
        if v.op == 'fld' and v.a[-1] == n and v.a[0] in e: ctx.ok('%s.tag.%s' % (nm, n))
        elif contains(v, lambda x: x in e): ctx.bad('%s.tag.%s' % (nm, n), 'the tag of a record is computed with %s as its %s' % (show(v)[:160], n), s.loc)
        else: ctx.unk('%s.tag.%s' % (nm, n), '%s' % show(v)[:160])

def private_iff(ctx, key, mode, en, typ, ok, msg, loc):
    a = c_is(typ, CT, 'ApplicationData'); p = c_is(mode, adt(ctx, en), 'Private')
    ctx.require(key + '.hidden', AND(ok, a), p, msg + ': application data is not processed privately', loc)
    ctx.require(key + '.shown', AND(ok, p), a, msg + ': a record other than application data is hidden', loc)
def M07(ctx):
    """what the verifying party may see"""
    start(ctx)
    for nm, (buf, seq, cnt, mx, mode) in PUSH.items():
        r = pushes(ctx, nm)
        if not r: continue
        s, ok = r; tail = 'record_layer::%s::%s' % (nm[5:], mode)
        op = record_op(ctx, nm + '.queued', s, ok, buf)
        if op is None: continue
        private_iff(ctx, nm, fld(op, 'mode'), tail, s.args[1], ok, nm, s.loc)
        if nm == 'push_encrypt':
            ctx.value(nm + '.plaintext', fld(op, 'plaintext'), s.args[4], 'the plaintext of a queued record', s.loc, care=ok)
            p = s.args[4]; some = c_is(p, 'core::option::Option', 'Some')
            ctx.require(nm + '.given', AND(ok, NOT(c_is(s.args[1], CT, 'ApplicationData'))), some, 'a record other than application data is accepted without its content', s.loc)
            ctx.require(nm + '.len', AND(ok, some), AND(V.c_le(length(fld(p, 'Some:0')), s.args[3]), V.c_le(s.args[3], length(fld(p, 'Some:0')))), 'the disclosed content and the record differ in length', s.loc)
        else: ctx.value(nm + '.ciphertext', fld(op, 'ciphertext'), s.args[4], 'the ciphertext of a queued record', s.loc, care=ok)
    for fn, mode in (('encrypt::encrypt', 'encrypt::EncryptMode'), ('decrypt::decrypt_mpc', 'decrypt::DecryptMode'), ('decrypt::decrypt_local', 'decrypt::DecryptMode')):
        f = ctx.fn(MT + 'record_layer::' + fn)
        s = ctx.summ(f, stop=r'MpcAesGcm::|AesGcm::decrypt$')
        if not s: continue
        nm = fn.split('::')[-1]; en = adt(ctx, 'record_layer::' + mode); ops = s.args[-1]
        outs = {}
        for e in ctx.events(s, r'MpcAesGcm::(apply|take)_keystream$'):
            n = e.args[2]; kind = e.path.split('::')[-1]
            el = [x for x in subterms(n) if x.op == 'elem' and x.a[0] is ops]
            if len(el) != 1: ctx.unk('%s.%s' % (nm, kind), 'keystream nonce %s' % show(n)[:160]); continue
            outs[e.res] = kind
            want = 'Private' if kind == 'apply_keystream' else 'Public'
            ctx.require('%s.%s' % (nm, kind), e.cond, c_is(fld(el[0], 'mode'), en, want), '%s: %s' % (nm, 'a public record is processed privately' if want == 'Private' else 'the keystream of a private record is disclosed'), s.loc)
        if not outs: ctx.unk(nm + '.keystream', 'no keystream is taken')
        for e in ctx.events(s, r'MemoryExt::decode$'):
            x = e.args[1]
            if x.op == 'fld' and x.a[-1] == '0' and x.a[0] in outs and outs[x.a[0]] == 'take_keystream': ctx.ok(nm + '.decode')
            elif x.op == 'fld' and x.a[0].op == 'fld' and x.a[0].a[0] in outs and outs[x.a[0].a[0]] == 'apply_keystream':
                if x.a[-1] == '1': ctx.ok(nm + '.decode')
                else: ctx.bad(nm + '.decode', '%s: the private input of the keystream is disclosed to both parties' % nm, s.loc)
            else: ctx.unk(nm + '.decode', 'decoded: %s' % show(x)[:160])
        for e in ctx.events(s, r'AesGcm::decrypt$'):
            if e.path.endswith('MpcAesGcm::decrypt'): continue
            el = [x for x in subterms(e.args[1]) if x.op == 'elem' and x.a[0] is ops]
            if len(el) == 1: ctx.require(nm + '.local', e.cond, c_is(fld(el[0], 'mode'), en, 'Private'), 'a public record is decrypted by the leader alone', s.loc)
    f = ctx.fn(MT + 'leader::MpcTlsLeader::push_outgoing')
    s = ctx.summ(f, stop=r'RecordLayer::', asyn=True)
    if s:
        m = s.args[1]; a = c_is(fld(m, 'typ'), CT, 'ApplicationData')
        es = [e for e in ctx.events(s, r'::send$') if e.args[1].op == 'agg' and e.args[1].a[1] == 'Encrypt']
        if len(es) != 1: ctx.unk('outgoing', '%d encrypt messages' % len(es))
        for e in es:
            b = fld(e.args[1], 'Encrypt:0'); p = fld(b, 'plaintext'); payload = fld(fld(m, 'payload'), '0')
            some = c_is(p, 'core::option::Option', 'Some')
            ctx.require('outgoing.hidden', AND(e.cond, a), NOT(some), 'application data is sent to the verifying party in the clear', s.loc, vocab=B.support(ORS(*[c_is(x.res, 'core::result::Result', 'Ok') for x in ctx.events(s, 'RecordLayer::push_encrypt$')])))
            ctx.require('outgoing.shown', AND(e.cond, NOT(a)), some, 'a record other than application data is not disclosed to the verifying party', s.loc)
            ctx.value('outgoing.content', fld(p, 'Some:0'), payload, 'the content disclosed to the verifying party', s.loc, care=AND(e.cond, some))
            for n in ('typ', 'version'): ctx.value('outgoing.' + n, fld(b, n), fld(m, n), 'the %s told to the verifying party' % n, s.loc, care=e.cond)
            ctx.value('outgoing.len', fld(b, 'len'), length(payload), 'the length told to the verifying party', s.loc, care=e.cond)
        for e in ctx.events(s, r'RecordLayer::push_encrypt$'):
            for i, n in ((1, 'typ'), (2, 'version')): ctx.value('outgoing.own.' + n, e.args[i], fld(m, n), 'the %s the record is queued with' % n, s.loc, care=e.cond)
            ctx.value('outgoing.own.len', e.args[3], length(payload), 'the length the record is queued with', s.loc, care=e.cond)
            ctx.value('outgoing.own.content', fld(e.args[4], 'Some:0'), payload, 'the content the record is queued with', s.loc, care=e.cond)
    f = ctx.fn(MT + 'leader::MpcTlsLeader::push_incoming')
    s = ctx.summ(f, stop=r'RecordLayer::', asyn=True)
    if s:
        es = [e for e in ctx.events(s, r'::send$') if e.args[1].op == 'agg' and e.args[1].a[1] == 'Decrypt']
        ps = ctx.events(s, r'RecordLayer::push_decrypt$')
        if len(es) != 1 or len(ps) != 1: ctx.unk('incoming', '%d messages, %d records' % (len(es), len(ps)))
        else:
            b = fld(es[0].args[1], 'Decrypt:0')
            for i, n in enumerate(('typ', 'version', 'explicit_nonce', 'ciphertext', 'tag')):
                ctx.value('incoming.' + n, fld(b, n), ps[0].args[i + 1], 'the %s told to the verifying party and the one the record is queued with' % n, s.loc, care=es[0].cond)
            for n in ('typ', 'version'): ctx.value('incoming.own.' + n, fld(b, n), fld(s.args[1], n), 'the %s of the received record' % n, s.loc, care=es[0].cond)

def is_state(ctx, t, tail, name): return c_is(t, adt(ctx, tail), name)
def M08(ctx):
    """phases"""
    start(ctx)
    RS, GS = 'record_layer::State', 'record_layer::aes_gcm::State'
    f = ctx.fn(RL + 'commit'); s = whole(ctx, f)
    if s:
        me = s.args[0]; ok = okcond(s); on = is_state(ctx, fld(me, 'state'), RS, 'Online')
        empty = V.c_le(length(fld(me, 'encrypt_buffer')), I(0))
        ctx.require('commit.state', ok, on, 'the record layer is committed in another phase', s.loc)
        ctx.require('commit.pending', ok, empty, 'the record layer is committed with records still to be encrypted', s.loc)
        fin = after(s, ok)
        ctx.require('commit.final', ok, is_state(ctx, fld(fin, 'state'), RS, 'Complete'), 'the record layer is usable again after the commitment', s.loc)
        bad = NOT(ok)
        ctx.require('commit.failed', bad, NOT(is_state(ctx, kept(s, fld(s.final(me), 'state'), 'state'), RS, 'Online')), 'the record layer stays usable after a failed commitment', s.loc)
        ks = ctx.events(s, r'aes_gcm::AesGcm::decode_key$')
        if len(ks) != 1: ctx.unk('commit.key', '%d key disclosures' % len(ks))
        for e in ks:
            ctx.require('commit.key.state', e.cond, on, 'the keys are revealed before the record layer is committed', s.loc)
            ctx.require('commit.key.pending', e.cond, empty, 'the keys are revealed while records are still to be encrypted', s.loc)
        gone = after(s, ok)
        ctx.value('commit.buffer', length(fld(gone, 'decrypt_buffer')), I(0), 'records still queued after the commitment', s.loc, care=ok)
        es = ctx.events(s, r'decrypt::decrypt_local$')
        if len(es) != 1: ctx.unk('commit.local', '%d local decryptions' % len(es))
        else: ctx.value('commit.local', es[0].args[4], fld(me, 'decrypt_buffer'), 'the records decrypted when the session is committed', s.loc, care=es[0].cond)
    for f in methods(ctx):
        nm = f[len(RL):]
        s = whole(ctx, f)
        if s is None: continue
        if nm != 'commit':
            es = ctx.events(s, r'aes_gcm::AesGcm::(decode_key|finish_decode)$')
            if es: ctx.bad('%s.key' % nm, '%s reveals the session keys' % nm, s.loc)
            else: ctx.ok('%s.key' % nm)
        if nm in ('new', 'alloc', 'commit') or ctx.db.fns[f]['argc'] == 0: continue
        me = s.args[0]; st = kept(s, fld(s.final(me), 'state'), 'state')
        on = is_state(ctx, fld(me, 'state'), RS, 'Online')
        if st is fld(me, 'state'): ctx.ok(nm + '.state')
        else: ctx.require(nm + '.state', is_state(ctx, st, RS, 'Online'), on, '%s makes the record layer usable again' % nm, s.loc)
    f = ctx.fn(RL + 'flush'); s = whole(ctx, f)
    if s:
        me = s.args[0]; on = is_state(ctx, fld(me, 'state'), RS, 'Online')
        for e in ctx.events(s, r'encrypt::encrypt$|decrypt::decrypt_mpc$|decrypt::verify_tags$'): ctx.require('flush.' + e.path.split('::')[-1], e.cond, on, 'records are processed jointly outside the online phase', s.loc)
        ctx.require('flush.ok', okcond(s), on, 'flushing succeeds outside the online phase', s.loc)
    f = ctx.fn(RL + 'alloc'); s = whole(ctx, f)
    if s:
        me = s.args[0]; ok = okcond(s)
        ctx.require('alloc.state', is_state(ctx, fld(s.final(me), 'state'), RS, 'Online'), is_state(ctx, fld(me, 'state'), RS, 'Init'), 'the record layer is allocated more than once', s.loc)
        ctx.require('alloc.ok', ok, is_state(ctx, fld(me, 'state'), RS, 'Init'), 'allocating the record layer succeeds more than once', s.loc)
        ctx.require('alloc.online', ok, is_state(ctx, fld(after(s, ok), 'state'), RS, 'Online'), 'the record layer is allocated but not online', s.loc)
    s = ctx.summ(ctx.fn(RL + 'new'))
    if s:
        ctx.require('new.state', 1, is_state(ctx, fld(s.ret, 'state'), RS, 'Init'), 'a new record layer is not in its initial phase', s.loc)
        ctx.require('new.started', V.cond(fld(s.ret, 'started')), 0, 'a new record layer already releases application data', s.loc)
    for nm, buf in (('next_encrypted', 'encrypted_buffer'), ('next_decrypted', 'decrypted_buffer')):
        s = ctx.summ(ctx.fn(RL + nm))
        if not s: continue
        me = s.args[0]; some = c_is(s.ret, 'core::option::Option', 'Some')
        q = fld(me, buf)
        m = {'all': 1}                                                        # the element removed from the front is the one seen there
        for e in s.events:
            if e.path.endswith('VecDeque::pop_front') and peel(e.args[0]) is q:
                m[e.res] = next((x.res for x in s.events if x.path.endswith('VecDeque::front') and peel(x.args[0]) is q), e.res)
        v = V.subst(under(s.ret, some), m, {}); some = V.subst_c(some, m, {})
        v = fld(under(v, some), 'Some:0')
        ctx.require(nm + '.started', AND(some, c_is(fld(v, 'typ'), CT, 'ApplicationData')), V.cond(fld(me, 'started')), '%s hands out application data before traffic was started' % nm, s.loc)
    for f in methods(ctx):
        nm = f[len(RL):]
        if nm in ('new', 'start_traffic') or ctx.db.fns[f]['argc'] == 0: continue
        s = whole(ctx, f)
        if s is None: continue
        v = kept(s, fld(s.final(s.args[0]), 'started'), 'started')
        if v is fld(s.args[0], 'started'): ctx.ok(nm + '.started')
        else: ctx.value(nm + '.started', v, fld(s.args[0], 'started'), '%s changes whether application data is released' % nm, s.loc)
    AG = MT + 'record_layer::aes_gcm::AesGcm::'
    for nm, frm, to in (('alloc', 'Init', 'Alloc'), ('decode_key', 'Alloc', 'Decode'), ('finish_decode', 'Decode', 'Ready')):
        s = ctx.summ(ctx.fn(AG + nm))
        if not s: continue
        me = s.args[0]; ok = okcond(s)
        ctx.require('key.%s.from' % nm, ok, is_state(ctx, fld(me, 'state'), GS, frm), 'the key holder: %s succeeds in another phase' % nm, s.loc)
        ctx.require('key.%s.to' % nm, ok, is_state(ctx, fld(after(s, ok), 'state'), GS, to), 'the key holder: %s does not reach the next phase' % nm, s.loc)
        for e in ctx.events(s, r'MemoryExt::decode$'):
            if nm != 'decode_key': ctx.bad('key.%s.decode' % nm, '%s discloses %s' % (nm, show(e.args[1])[:120]), s.loc)
            else:
                x = e.args[1]
                if x.op == 'fld' and x.a[-1] in ('masked_key', 'masked_iv') and x.a[0] is fld(me, 'state'): ctx.ok('key.decode')
                elif contains(x, lambda y: y.op == 'fld' and y.a[-1] in ('key', 'iv') and y.a[0] is me): ctx.bad('key.decode', 'the session key is disclosed unmasked', s.loc)
                else: ctx.unk('key.decode', 'decoded: %s' % show(x)[:160])
    s = ctx.summ(ctx.fn(AG + 'decrypt'))
    if s:
        ok = okcond(s); me = s.args[0]
        ctx.require('key.decrypt.state', ok, is_state(ctx, fld(me, 'state'), GS, 'Ready'), 'local decryption before the keys were revealed', s.loc)
        role = adt(ctx, 'config::Role') or adt(ctx, 'Role')
        if role: ctx.require('key.decrypt.role', ok, c_is(fld(me, 'role'), role, 'Leader'), 'the follower decrypts locally', s.loc)
    leader(ctx)
def leader(ctx):
    L = MT + 'leader::MpcTlsLeader::'; LS = 'leader::State'
    for nm in ('push_incoming', 'push_outgoing', 'start_traffic', 'close_connection', 'get_client_finished_vd', 'get_server_finished_vd'):
        s = ctx.summ(ctx.fn(L + nm), stop=r'RecordLayer::|check_close_notify|verify_sig_determine_alg|TlsTranscript::|TlsTranscriptBuilder|flush_prf', asyn=True)
        if not s: continue
        me = s.args[0]; ok = okcond(s)
        ctx.require('leader.%s' % nm, ok, is_state(ctx, fld(me, 'state'), LS, 'Active'), '%s succeeds outside the active phase' % nm, s.loc)
        for e in ctx.events(s, r'RecordLayer::|::send$'): ctx.require('leader.%s.%s' % (nm, e.path.split('::')[-1]), e.cond, is_state(ctx, fld(me, 'state'), LS, 'Active'), '%s acts outside the active phase' % nm, s.loc)
        if nm == 'close_connection':
            ctx.require('leader.close.final', ok, is_state(ctx, fld(after(s, ok), 'state'), LS, 'Closed'), 'the connection is closed but not in its final phase', s.loc)
            ctx.require('leader.close.failed', NOT(ok), NOT(AND(is_state(ctx, fld(s.final(me), 'state'), LS, 'Active'), 1)), 'the connection stays active after closing failed', s.loc)
            cs = ctx.events(s, r'RecordLayer::commit$')
            if len(cs) != 1: ctx.unk('leader.close.commit', '%d commitments' % len(cs))
            else:
                sent = [e for e in ctx.events(s, r'::send$') if e.args[1].op == 'agg' and e.args[1].a[1] == 'CloseConnection']
                if len(sent) != 1: ctx.unk('leader.close.told', '%d messages' % len(sent))
                else: ctx.require('leader.close.told', cs[0].cond, sent[0].cond, 'the session is committed without telling the verifying party', s.loc)
                ctx.require('leader.close.committed', ok, cs[0].cond, 'the connection is closed without committing', s.loc)

def some_of(d, ops):
    """d is made of a part of the records (or of records in another arrangement)"""
    x = d
    if x.op == 'filter': x = x.a[0]; return x.op in ('coll', 'map') and (x.a[0] is ops or some_of(x, ops)) or x is ops
    return x.op in ('coll', 'map') and x.a[0].op in ('slice', 'filter', 'rev') and x.a[0].a[0] is ops
def column_is(ctx, key, v, ops, n, msg, loc):
    """v = the field n of every element of ops"""
    d = v
    if d.op == 'seq' and len(d.a) == 1 and d.a[0].op == 's': d = d.a[0].a[0]
    if some_of(d, ops): return ctx.bad(key, '%s: not those of every record, in order: %s' % (msg, show(d)[:160]), loc)
    if d.op in ('coll', 'map') and d.a[0] is ops:
        x = d.a[1]
        if x.op == 'fld' and x.a[0].op == 'elem' and x.a[0].a[0] is ops:
            if x.a[-1] == n: return ctx.ok(key)
            return ctx.bad(key, '%s: %s is passed' % (msg, show(x)[:160]), loc)
    ctx.unk(key, '%s: %s' % (msg, show(v)[:200]))
def M03(ctx):
    """tags before plaintext"""
    start(ctx)
    r = pushes(ctx, 'push_decrypt')
    if r:
        g, okp = r; op = record_op(ctx, 'push_decrypt.queued', g, okp, 'decrypt_buffer')
        if op is not None:
            x = ctx.summ(ctx.fn('tls_core::cipher::make_tls12_aad'), args=[fld(g.args[0], 'read_seq'), g.args[1], g.args[2], length_of(g, 'push_decrypt')])
            if x: ctx.value('push_decrypt.aad', fld(op, 'aad'), x.ret, 'what the tag of a received record is verified over', g.loc, care=okp)
            for i, n in ((3, 'explicit_nonce'), (4, 'ciphertext'), (5, 'tag')): ctx.value('push_decrypt.' + n, fld(op, n), g.args[i], 'the %s of a received record' % n, g.loc, care=okp)
    RES = 'core::result::Result'; okr = lambda x: c_is(x, RES, 'Ok')
    s = whole(ctx, ctx.fn(RL + 'flush'))
    if s:
        vs = ctx.events(s, r'decrypt::verify_tags$'); ds = ctx.events(s, r'decrypt::decrypt_mpc$'); ps = ctx.events(s, r'DecryptOutput::try_decrypt$')
        if not ds or not ps: ctx.unk('flush', 'no joint decryption found')
        elif not vs: ctx.bad('flush.verified', 'records are decrypted jointly without verifying their tags', s.loc)
        elif len(vs) != 1 or len(ds) != 1: ctx.unk('flush', '%d joint decryptions, %d tag verifications' % (len(ds), len(vs)))
        else:
            ctx.value('flush.ops', vs[0].args[2], ds[0].args[3], 'the records whose tags are verified and the records decrypted', s.loc, care=ds[0].cond)
            task = fld(vs[0].res, 'Ok:0')
            js = [e for e in ctx.events(s, r'mpz_common::Context::(try_)?join$') if any(contains(a, lambda x: x is task) for a in e.args)]
            for e in ps:
                if not contains(e.args[0], lambda x: x is ds[0].res): ctx.unk('flush.pending', 'decrypted: %s' % show(e.args[0])[:160]); continue
                waits = [t for v, t in _atoms(e.cond) if contains(t, lambda x: x is task)]
                if not waits: ctx.bad('flush.wait', 'a record is released without waiting for the verification of its tag', s.loc); continue
                if len(js) != 1: ctx.unk('flush.wait', '%d joint tasks' % len(js)); continue
                R = js[0].res
                aw = [x for t in waits for x in subterms(t) if x.op in ('await', 'call') and x is not R and any(y is R for y in x.a if hasattr(y, 'op'))]
                aw = list(dict.fromkeys(aw))
                if len(aw) != 1:
                    aw2 = [x for t in waits for x in subterms(t) if any(y is R for y in getattr(x, 'a', ()) if hasattr(y, 'op'))]
                    aw = list(dict.fromkeys(aw2))
                if len(aw) != 1: ctx.unk('flush.wait', 'how the joint task is awaited was not recognised'); continue
                ctx.require('flush.wait', e.cond, AND(okr(aw[0]), okr(fld(aw[0], 'Ok:0'))), 'a record is released although the verification of its tag did not succeed', s.loc)
            if len(js) == 1: task_run(ctx, s, js[0], task)
    f = ctx.fn(MT + 'record_layer::decrypt::verify_tags')
    s = ctx.summ(f, stop=r'MpcAesGcm::')
    if s:
        es = ctx.events(s, 'MpcAesGcm::verify_tags$'); ops = s.args[-1]
        if len(es) != 1: ctx.unk('verify.call', '%d calls' % len(es))
        else:
            tag_columns(ctx, 'verify', s, es[0].args[2], ops)
            column_is(ctx, 'verify.ciphertext', es[0].args[3], ops, 'ciphertext', 'the ciphertexts whose tags are verified', s.loc)
            column_is(ctx, 'verify.tag', es[0].args[4], ops, 'tag', 'the tags that are verified', s.loc)
            ctx.require('verify.done', okcond(s), okr(es[0].res), 'the verification of tags could not be set up, and this is ignored', s.loc)
    s = ctx.summ(ctx.fn(MT + 'record_layer::aead::aes_gcm::MpcAesGcm::verify_tags'))
    if s:
        ok = okcond(s); d, ct, tg = s.args[2:5]
        for n, x, y in (('data', ct, d), ('tags', ct, tg)):
            ctx.require('aead.len.' + n, ok, AND(V.c_le(length(x), length(y)), V.c_le(length(y), length(x))), 'tags are verified for fewer records than were given (%s)' % n, s.loc)
        v = [t for c, t in alts(s.ret) if is_okish(t) == 1] if 'is_okish' in globals() else []
        vt = fld(under(s.ret, ok), 'Ok:0'); data = fld(vt, 'data')
        el = None
        if data.op == 'seq' and len(data.a) == 1 and data.a[0].op == 's': data = data.a[0].a[0]
        if data.op == 'coll': el = data.a[1]
        if el is None: ctx.unk('aead.data', show(data)[:200])
        else:
            for n, want in (('ciphertext', T('elem', ct)), ('tag', T('elem', tg)), ('aad', fld(T('elem', d), 'aad'))):
                x = fld(el, n)
                if show(x) == show(want): ctx.ok('aead.' + n)
                elif x.op in ('elem', 'fld') and contains(x, lambda y: y in (ct, tg, d)): ctx.bad('aead.' + n, 'the tag of a record is verified over %s as its %s' % (show(x)[:160], n), s.loc)
                else: ctx.unk('aead.' + n, show(x)[:200])
        ctx.value('aead.role', fld(vt, 'role'), fld(s.args[0], 'role'), 'the role of the verification', s.loc, care=ok)
        for e in ctx.events(s, r'aes_gcm::assign_j0$') or []:
            x = e.args[2]
            if x.op == 'fld' and x.a[-1] == 'explicit_nonce' and show(x.a[0]) == show(T('elem', d)): ctx.ok('aead.nonce')
            else: ctx.unk('aead.nonce', show(x)[:200])
    verify_run(ctx)
    f = ctx.fn(MT + 'record_layer::decrypt::decrypt_local')
    s = ctx.summ(f, stop=r'MpcAesGcm::|AesGcm::decrypt$')
    if s:
        ops = s.args[-1]
        es = [e for e in ctx.events(s, r'aes_gcm::AesGcm::decrypt$') if 'Mpc' not in e.path]
        if not es: ctx.unk('local', 'no local decryption found')
        for e in es:
            for i, n in ((1, 'explicit_nonce'), (2, 'aad'), (3, 'ciphertext'), (4, 'tag')):
                x = e.args[i]
                if x.op == 'fld' and x.a[-1] == n and x.a[0].op == 'elem' and x.a[0].a[0] is ops: ctx.ok('local.' + n)
                elif contains(x, lambda y: y is ops): ctx.bad('local.' + n, 'a record is decrypted with %s as its %s' % (show(x)[:160], n), s.loc)
                else: ctx.unk('local.' + n, show(x)[:200])
        good = [fld(e.res, 'Ok:0') for e in es]
        vals = list(s.engine.loops.values())
        seen = set()
        for root in [s.ret] + [t for l in vals for t in l['step'].values()]:
            for x in subterms(root):
                if x.op == 'agg' and str(x.a[0]).endswith('DecryptLocal') and x not in seen:
                    seen.add(x); p = fld(x, 'plaintext')
                    for c, t in alts(p):
                        if t.op == 'agg' and t.a[1] == 'None': continue
                        y = fld(t, 'Some:0')
                        if y in good: ctx.ok('local.plaintext')
                        elif contains(y, lambda z: z is ops) and not any(contains(y, lambda z, g=e.res: z is g) for e in es): ctx.bad('local.plaintext', 'the plaintext of a local record is %s' % show(y)[:160], s.loc)
                        else: ctx.unk('local.plaintext', show(y)[:200])
        if not seen: ctx.unk('local.plaintext', 'no local plaintext found')
    s = ctx.summ(ctx.fn(MT + 'record_layer::aes_gcm::AesGcm::decrypt'))
    if s:
        ok = okcond(s); me, nonce, aad, ct, tag = s.args[:5]
        es = ctx.events(s, r'decrypt_in_place(_detached)?$')
        if len(es) != 1: (ctx.bad if not es else ctx.unk)('aes.call', '%d authenticated decryptions' % len(es), s.loc) if not es else ctx.unk('aes.call', '%d authenticated decryptions' % len(es))
        else:
            e = es[0]
            ctx.require('aes.ok', ok, okr(e.res), 'the plaintext is returned although its tag was not verified', s.loc)
            ctx.value('aes.aad', e.args[2], aad, 'the additional data', s.loc, care=e.cond)
            ctx.value('aes.ct', e.args[3], ct, 'the ciphertext', s.loc, care=e.cond)
            if contains(e.args[4], lambda x: x is tag): ctx.ok('aes.tag')
            else: ctx.bad('aes.tag', 'the tag of the record is not what is verified', s.loc)
            n = e.args[1]; n = n.a[-1] if n.op == 'call' else n
            iv = fld(fld(fld(me, 'state'), 'Ready:iv'), 'Some:0')
            want = [T('index', iv, I(i)) for i in range(4)] + [T('index', nonce, I(i)) for i in range(8)]
            if n.op == 'arr' and len(n.a) == 12:
                if [show(x) for x in n.a] == [show(x) for x in want]: ctx.ok('aes.nonce')
                elif all(x.op == 'index' or x.op == 'int' for x in n.a): ctx.bad('aes.nonce', 'the nonce is %s' % show(n)[:200], s.loc)
                else: ctx.unk('aes.nonce', show(n)[:200])
            else: ctx.unk('aes.nonce', show(n)[:200])
            out = fld(under(s.ret, ok), 'Ok:0')
            if contains(out, lambda x: x is e.res): ctx.ok('aes.out')
            else: ctx.unk('aes.out', show(out)[:160])
def _atoms(c):
    from att_rules import atoms
    return atoms(c)
def task_run(ctx, s, join, task):
    """the joint task succeeds only if the verification did"""
    RES = 'core::result::Result'
    for a in join.args[1:]:
        if not contains(a, lambda x: x is task): continue
        if a.op != 'clo': ctx.unk('flush.task', show(a)[:160]); continue
        caps = [x for x in a.a[2:] if hasattr(x, 'op')]
        if task not in caps:
            if any(contains(x, lambda y: y is task) for x in caps if x.op != 'eff'): ctx.unk('flush.task', 'the verification is passed inside another value')
            continue
        j = caps.index(task)
        g = ctx.summ(a.a[0], asyn=True, stop=r'(VerifyTags|ComputeTags) as .*::run$')
        if g is None: continue
        me = fld(g.args[0], str(j)); ok = okcond(g)
        runs = []
        for c, t in alts(g.ret):
            for v, x in _atoms(c):
                if x.op in ('discr', 'eq'): x = x.a[0]
                if x not in runs and contains(x, lambda y: y.op in ('coro', 'call') and ('VerifyTags as' in str(y.a[0]) or str(y.a[0]).endswith('Task::run')) and any(z is me for z in y.a if hasattr(z, 'op'))) and not contains(x, lambda y: y.op == 'eff'): runs.append(x)
        if not runs: ctx.bad('flush.task', 'the joint task ends without looking at the outcome of the verification of the tags', g.loc); continue
        if len(runs) != 1: ctx.unk('flush.task', '%d verifications' % len(runs)); continue
        ctx.require('flush.task', ok, c_is(runs[0], RES, 'Ok'), 'the joint task succeeds although the verification of the tags failed', g.loc)
        ev = [e for e in g.events if e.kind == 'call' and e.path.endswith('::run') and ('ComputeTags as' in e.path or (e.path.endswith('Task::run') and e.args[0] is not me))]
        for e in ev: ctx.require('flush.order', e.cond, c_is(runs[0], RES, 'Ok'), 'tags of sent records are computed although the verification failed', g.loc)
def verify_run(ctx):
    f = ctx.method('mpz_common::Task', MT + 'record_layer::aead::ghash::verify::VerifyTags', 'run')
    if f is None: return
    s = ctx.summ(f, asyn=True)
    if not s: return
    me = s.args[0]; data = fld(me, 'data'); ok = okcond(s)
    role = adt(ctx, 'config::Role') or adt(ctx, 'Role')
    need = AND(ok, AND(c_is(fld(me, 'role'), role, 'Leader'), V.c_le(I(1), length(data))))
    if need == 0: return ctx.unk('run', 'never succeeds')
    eqs = []
    for v, x in _atoms(ok):
        if x.op == 'eq': eqs.append((v, x))
    tagside = lambda x: x.op in ('seq', 'coll', 'map') and any(y.op == 'fld' and y.a[-1] == 'tag' and y.a[0].op == 'elem' for y in subterms(x))
    peers = [e.res for e in ctx.events(s, r'expect_next$')]
    peerside = lambda x: any(contains(x, lambda y, p=p: y is p) for p in peers)
    hit = [(v, x) for v, x in eqs if (tagside(x.a[0]) and peerside(x.a[1])) or (tagside(x.a[1]) and peerside(x.a[0]))]
    if not eqs: return ctx.bad('run.equal', 'the tags of the records are not compared with the computed ones', s.loc)
    if len(hit) != 1: return ctx.unk('run.equal', '%d comparisons' % len(eqs))
    ctx.require('run.equal', need, V.bvar(hit[0][1]), 'the verification of the tags succeeds although a tag differs from the computed one', s.loc)
    t = hit[0][1]; a, b = t.a[:2]
    if not tagside(a): a, b = b, a
    d = a.a[0].a[0] if a.op == 'seq' and len(a.a) == 1 and a.a[0].op == 's' else a
    # the share of the other party is counted once per record
    sh = fld(peers[0], 'Ok:0') if peers else None
    for e in ctx.events(s, r'Ghash::compute$'):
        x = e.args[1]
        if x.op != 'seq' or len(x.a) != 3: ctx.unk('run.ghash', show(x)[:200]); continue
        for i, n in ((0, 'aad'), (1, 'ciphertext')):
            y = x.a[i].a[0]
            if y.op == 'resize' and y.a[0].op == 'fld' and y.a[0].a[-1] == n: ctx.ok('run.ghash.' + n)
            elif contains(y, lambda z: z.op == 'fld' and z.a[-1] in ('aad', 'ciphertext', 'tag')) and not contains(y, lambda z: z.op == 'fld' and z.a[-1] == n): ctx.bad('run.ghash.' + n, 'the tag is computed over %s in place of the %s' % (show(y)[:160], n), s.loc)
            else: ctx.unk('run.ghash.' + n, show(y)[:200])
        l = x.a[2].a[0]
        el = [y for y in subterms(x) if y.op == 'fld' and y.a[-1] == 'aad']
        if el:
            want = T('be', 128, V.add(V.mul(I(8 << 64), length(el[0])), V.mul(I(8), length(fld(el[0].a[0], 'ciphertext')))))
            if show(l) == show(want): ctx.ok('run.ghash.len')
            elif l.op == 'be': ctx.bad('run.ghash.len', 'the lengths authenticated by a tag are %s' % show(l)[:200], s.loc)
            else: ctx.unk('run.ghash.len', show(l)[:200])

OPT = 'core::option::Option'
def M01(ctx):
    """what the verifying party accepts"""
    start(ctx)
    RES = 'core::result::Result'; okr = lambda x: c_is(x, RES, 'Ok'); some = lambda x: c_is(x, OPT, 'Some'); none = lambda x: c_is(x, OPT, 'None')
    f = ctx.fn(MT + 'follower::MpcTlsFollower::run')
    s = ctx.summ(f, stop=r'RecordLayer::|flush_prf$|prf::Prf::|KeyExchange|utils::verify_transcript$|TlsTranscript', asyn=True)
    if s: follower(ctx, s, okr, some, none)
    tr = ctx.summ(ctx.fn(MT + 'utils::verify_transcript'), stop='check_close_notify$')
    if tr:
        ok = okcond(tr); t = tr.args[0]
        es = ctx.events(tr, 'check_close_notify$')
        for nm, i in (('cf_vd', 1), ('sf_vd', 2)):
            g = ctx.summ(ctx.fn('tlsn_core::transcript::tls::TlsTranscript::' + nm), args=[t])
            if not g: continue
            v = fld(under(g.ret, some(g.ret)), 'Some:0')
            ctx.require('verify.' + nm, AND(ok, some(g.ret)), V.c_eq(v, tr.args[i]), 'the recorded Finished message (%s) is not compared with the value computed jointly' % nm, tr.loc, vocab=B.support(ORS(*[okr(e.res) for e in es])))
        for nm in ('sent', 'recv'):
            g = ctx.summ(ctx.fn('tlsn_core::transcript::tls::TlsTranscript::' + nm), args=[t])
            if not g: continue
            hit = [e for e in es if e.args[0] is g.ret]
            if hit: ctx.require('verify.close.' + nm, ok, ORS(*[okr(e.res) for e in hit]), 'a %s direction that was not closed properly is accepted' % nm, tr.loc)
            elif not es: ctx.unk('verify.close.' + nm, 'no check of the end of the direction was found')
            elif all(contains(e.args[0], lambda x: x is t) for e in es): ctx.bad('verify.close.' + nm, 'the end of the %s records is not checked' % nm, tr.loc)
            else: ctx.unk('verify.close.' + nm, '%d checks' % len(es))
    s = ctx.summ(ctx.fn(MT + 'utils::check_close_notify'))
    if s:
        r = s.args[0]; ok = AND(okcond(s), V.c_le(I(1), length(r)))
        last = [x for x in subterms(s.ret) if x.op == 'index' and x.a[0] is r]
        last = list(dict.fromkeys(last)) or [x for v, t in _atoms(okcond(s)) for x in subterms(t) if x.op == 'index' and x.a[0] is r]
        last = list(dict.fromkeys(last))
        if len(last) != 1: ctx.unk('close.last', '%d records are looked at' % len(last))
        else:
            x = last[0]
            ctx.value('close.last', x.a[1], V.add(length(r), I(-1)), 'the record at which the end of the connection is checked', s.loc)
            ty = ctx.db.adts and 'tlsn_core::transcript::tls::ContentType'
            ty = ty if ty in ctx.db.adts else next((a for a in ctx.db.adts if a.startswith('tlsn_core') and a.endswith('::ContentType')), None)
            if ty:
                alert = c_is(fld(x, 'typ'), ty, 'Alert')
                ctx.require('close.type', ok, OR(alert, c_is(fld(x, 'typ'), ty, 'ApplicationData')), 'a direction ending with another kind of record is accepted', s.loc)
                p = fld(x, 'plaintext')
                ctx.require('close.shown', AND(ok, alert), some(p), 'a direction ending with a hidden alert is accepted', s.loc)
                ctx.require('close.notify', AND(ok, alert), V.c_eq(T('index', fld(p, 'Some:0'), I(1)), I(0)), 'a direction ending with an alert other than close_notify is accepted', s.loc)
            else: ctx.unk('close.type', 'record content type not found')
def held(ctx, key, v, spec, slots, msg, loc, care):
    """v is what the slot of the specification holds; what another slot holds, or a value not kept from the handshake, is not"""
    r = chain(v)[0]
    if v is not spec and ((r in slots and r is not chain(spec)[0]) or not contains(v, lambda x: x.op in ('lv', 'await'))): ctx.bad(key, '%s: %s' % (msg, show(v)[:160]), loc)
    else: ctx.value(key, v, spec, msg, loc, care=care)
def follower(ctx, s, okr, some, none):
    ok = okcond(s); loc = s.loc
    NG = 'tls_core::msgs::enums::NamedGroup'; MSG = adt(ctx, 'msg::Message')
    ctx.require('run.state', ok, is_state(ctx, fld(s.args[0], 'state'), 'follower::State', 'Ready'), 'the follower runs in another phase', loc)
    loops = [l for l in s.engine.loops.values() if 'follower' in l['fn'] and any(e.path.endswith('expect_next') for e in s.events)]
    if len(loops) != 1: return ctx.unk('run.loop', '%d loops' % len(loops))
    L = loops[0]
    recv = ctx.events(s, r'expect_next$')
    if len(recv) != 1: return ctx.unk('run.recv', '%d receptions' % len(recv))
    msg = None
    for e in s.events:
        for t in e.args:
            for x in subterms(t):
                if x.op == 'fld' and x.a[0].op in ('await', 'call') and x.a[-1] == '0' and contains(x.a[0], lambda y: y is recv[0].res) and x.a[1] == 'Ok': msg = msg or x
    if msg is None: return ctx.unk('run.msg', 'the received message was not recognised')
    opts = [lv for lv, v in L['init'].items() if v.op == 'agg' and v.a[1] == 'None' and lv in L['step']]
    ctx.free = set(opts) | {lv for lv, v in L['init'].items() if contains(v, lambda x: x.op == 'arg')}
    slot = {}; verified = B.support(ORS(*[okr(e.res) for e in ctx.events(s, r'utils::verify_transcript$')]))
    for nm, rx, variant, what in (('client_random', r'Prf::set_client_random$', 'SetClientRandom', 'client random'), ('server_hello', r'KeyExchange::set_server_key$', 'ServerHello', 'server hello'),
                                  ('cf', r'Prf::set_cf_hash$', 'ClientFinishedVd', "hash for the client's Finished"), ('sf', r'Prf::set_sf_hash$', 'ServerFinishedVd', "hash for the server's Finished")):
        es = ctx.events(s, rx)
        if len(es) != 1: ctx.unk('run.' + nm, '%d uses' % len(es)); continue
        e = es[0]
        ctx.require('run.%s.msg' % nm, e.cond, c_is(msg, MSG, variant), 'the %s is taken from another message' % what, loc)
        # the slot that remembers it
        mine = []
        for lv in opts:
            st = L['step'][lv]
            new = AND(L['back'], AND(none(lv), some(st)))
            if new != 0 and valid2(new) != 0 and AND(new, NOT(c_is(msg, MSG, variant))) == 0: mine.append(lv)
            elif new != 0 and AND(AND(new, NOT(c_is(msg, MSG, variant))), valid2(AND(new, NOT(c_is(msg, MSG, variant))))) == 0: mine.append(lv)
        if len(mine) != 1: ctx.unk('run.%s.slot' % nm, '%d places remember it' % len(mine)); continue
        lv = slot[nm] = mine[0]; st = L['step'][lv]
        ctx.require('run.%s.once' % nm, e.cond, none(lv), 'the %s is accepted more than once' % what, loc)
        ctx.require('run.%s.kept' % nm, AND(L['back'], some(lv)), some(st), 'that the %s was received is forgotten' % what, loc)
        ctx.require('run.%s.needed' % nm, ok, some(lv), 'the session completes without the %s' % what, loc, vocab=verified)
        care = AND(L['back'], AND(none(lv), some(st)))
        ctx.require('run.%s.set' % nm, AND(L['back'], e.cond), some(st), 'that the %s was received is not remembered' % what, loc)
        v = under(st, care)
        if nm == 'client_random': ctx.value('run.client_random.value', fld(v, 'Some:0'), e.args[1], 'the client random that is remembered', loc, care=care)
        if nm == 'server_hello':
            body = fld(msg, 'ServerHello:0')
            ctx.value('run.hello.value', fld(v, 'Some:0'), body, 'the server hello that is remembered', loc, care=care)
            now = [x.res for x in ctx.events(s, r'Duration::as_secs$')]
            if len(now) > 1: now = [x for x in now if contains_any(care, x)]
            if len(now) != 1: ctx.unk('run.time', '%d times' % len(now))
            else:
                t = fld(body, 'time')
                d = ctx.const(MT + 'follower::MAX_TIME_DIFF') if hasattr(ctx, 'const') else None
                ctx.require('run.time.late', care, V.c_le(t, V.add(now[0], I(5))), 'a reported time later than the permitted skew is accepted', loc)
                ctx.require('run.time.early', care, V.c_le(now[0], V.add(t, I(5))), 'a reported time earlier than the permitted skew is accepted', loc)
            ctx.require('run.group', care, c_is(fld(fld(body, 'key'), 'group'), NG, 'secp256r1'), 'a server key of another curve is accepted', loc)
            k = fld(fld(body, 'key'), 'key')
            if contains(e.args[1], lambda x: x is k): ctx.ok('run.key')
            else: ctx.unk('run.key', show(e.args[1])[:200])
            for x in ctx.events(s, r'Prf::set_server_random$'): ctx.value('run.server_random', x.args[1], fld(body, 'random'), 'the server random of the key derivation', loc, care=x.cond)
        if nm in ('cf', 'sf'):
            ctx.value('run.%s.hash' % nm, e.args[1], fld(msg, variant + ':0'), 'the hash over which %s is computed' % what, loc, care=e.cond)
            x = fld(v, 'Some:0')
            fut = [y for y in subterms(x) if y.op == 'lv' and y in L['init'] and L['init'][y].op == 'fld' and L['init'][y].a[-1] in ('cf_vd', 'sf_vd')]
            if not fut: ctx.unk('run.%s.value' % nm, show(x)[:200])
            elif all(L['init'][y].a[-1] == nm + '_vd' for y in fut): ctx.ok('run.%s.value' % nm)
            else: ctx.bad('run.%s.value' % nm, 'the value expected for %s is that of the other Finished message' % what, loc)
    for x in ctx.events(s, r'Prf::set_client_random$'):
        ctx.value('run.client_random.used', x.args[1], fld(msg, 'SetClientRandom:0'), 'the client random of the key derivation', loc, care=x.cond)
    ctx.require('run.closed', ok, c_is(msg, MSG, 'CloseConnection'), 'the session completes before the connection was closed', loc)
    cs = ctx.events(s, r'RecordLayer::commit$')
    if len(cs) != 1: ctx.unk('run.commit', '%d commitments' % len(cs))
    else:
        aw = list(dict.fromkeys(x for v, t in _atoms(ok) for x in subterms(t) if x.op in ('await', 'call') and x is not cs[0].res and any(y is cs[0].res for y in x.a if hasattr(y, 'op'))))
        aw = [x for x in aw if 'await' in (x.op, str(x.a[0]) if x.a else '')]
        if len(aw) != 1: (ctx.bad('run.commit', 'the session completes without committing to the record layer', loc) if not contains_any(ok, cs[0].res) else ctx.unk('run.commit', '%d outcomes' % len(aw)))
        else:
            ctx.require('run.commit', ok, okr(aw[0]), 'the session completes although the commitment failed', loc)
            for nm, i in (('sent', '0'), ('recv', '1')):
                es = ctx.events(s, 'TlsTranscriptBuilder::records_%s$' % nm)
                if len(es) == 1: ctx.value('run.records.' + nm, es[0].args[1], fld(fld(aw[0], 'Ok:0'), i), 'the %s records of the transcript' % nm, loc, care=es[0].cond)
                else: ctx.unk('run.records.' + nm, '%d calls' % len(es))
    vs = ctx.events(s, r'utils::verify_transcript$')
    if not vs: ctx.bad('run.verify', 'the session completes without verifying the Finished messages', loc)
    elif len(vs) != 1: ctx.unk('run.verify', '%d verifications' % len(vs))
    else:
        ctx.require('run.verify', ok, okr(vs[0].res), 'the session completes although the Finished messages are wrong', loc)
        for i, nm in ((1, 'cf'), (2, 'sf')):
            if nm in slot: ctx.value('run.verify.' + nm, vs[0].args[i], fld(slot[nm], 'Some:0'), "the value against which the Finished message is verified", loc, care=vs[0].cond)
        out = fld(fld(under(s.ret, ok), 'Ok:0'), '1')
        ctx.value('run.verify.transcript', vs[0].args[0], out, 'the transcript that is verified and the one returned', loc, care=ok)
    for nm, spec in (('time', lambda h: fld(h, 'time')),):
        es = ctx.events(s, 'TlsTranscriptBuilder::%s$' % nm)
        if 'server_hello' in slot and len(es) == 1: held(ctx, 'run.transcript.time', es[0].args[1], spec(fld(slot['server_hello'], 'Some:0')), list(slot.values()), 'the time of the transcript', loc, es[0].cond)
    es = ctx.events(s, r'TlsTranscriptBuilder::certificate_binding$')
    if len(es) == 1 and 'server_hello' in slot and 'client_random' in slot:
        b = fld(es[0].args[1], 'V1_2:0'); h = fld(slot['server_hello'], 'Some:0')
        held(ctx, 'run.binding.client', under(fld(b, 'client_random'), AND(es[0].cond, some(slot['client_random']))), fld(slot['client_random'], 'Some:0'), list(slot.values()), 'the client random of the certificate binding', loc, es[0].cond)
        held(ctx, 'run.binding.server', under(fld(b, 'server_random'), AND(es[0].cond, some(slot['server_hello']))), fld(h, 'random'), list(slot.values()), 'the server random of the certificate binding', loc, es[0].cond)
        k = fld(b, 'server_ephemeral_key')
        if contains(k, lambda x: x is fld(fld(h, 'key'), 'key') or x is fld(h, 'key')): ctx.ok('run.binding.key')
        else: ctx.unk('run.binding.key', show(k)[:200])
    for nm, m, fs in (('push_encrypt', 'Encrypt', ('typ', 'version', 'len', 'plaintext')), ('push_decrypt', 'Decrypt', ('typ', 'version', 'explicit_nonce', 'ciphertext', 'tag')), ('flush', 'Flush', None)):
        for e in ctx.events(s, 'RecordLayer::%s$' % nm):
            ctx.require('run.%s.msg' % nm, e.cond, c_is(msg, MSG, m), 'the follower acts on another message', loc)
            if fs:
                for i, n in enumerate(fs): ctx.value('run.%s.%s' % (nm, n), e.args[i + 1], fld(fld(msg, m + ':0'), n), 'the %s of the record the follower processes' % n, loc, care=e.cond)
            else: ctx.value('run.flush.mode', e.args[3], fld(msg, 'Flush:is_decrypting'), 'whether received records are decrypted', loc, care=e.cond)
def contains_any(c, x): return any(contains(t, lambda y: y is x) for v, t in _atoms(c))
