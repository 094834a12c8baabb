"""Rules for tlsn-attestation (A01-A06).  Like tlsn-core, the crate is analysed against interface stubs of the dependencies that are
not present here; a call into one is an opaque value of its arguments."""
from lang import *
from core_rules import peel, column, coll_, digests, family, leaves, focus, over, whole_digest, same_int

AT = 'tlsn_attestation::'; CO = 'tlsn_core::'
def start(ctx): ctx.crate = 'tlsn_attestation'
def calls(s, tail, n=None): return [e for e in s.events if e.kind in ('call', 'inl') and e.path.split('::')[-1] == tail and e.res is not None and (n is None or len(e.args) == n)]
def alikes(ctx, ty, a, b):
    """the conditions under which the type's own equality holds of a and b, as it may appear: opaque or field by field"""
    out = [c_eq(a, b), c_eq(b, a)]
    f = ctx.db.impl_method('core::cmp::PartialEq', ty, 'eq')
    if f in ctx.db.fns:
        for x, y in ((a, b), (b, a)):
            s = ctx.summ(f, args=[x, y])
            if s: out.append(V.cond(s.ret))
    return out
def alike(ctx, ty, a, b):
    g = 0
    for x in alikes(ctx, ty, a, b): g = OR(g, x)
    return g
def listed(v):
    """an iterator or collection as the list of its entries"""
    v = coll_(v)
    if v.op == 'seq' and len(v.a) == 1 and v.a[0].op == 's': v = v.a[0].a[0]
    return T('coll', v.a[0], v.a[1]) if v.op == 'map' and len(v.a) == 2 else V.coll(v) if v.op in ('map', 'filter', 'iter') else v
def named(ty):
    """path of the type a field's data has"""
    return ty[1] if ty and ty[0] == 'adt' else None
def domain(ctx, ty, x):
    """the domain separator of a type, as a value"""
    f = ctx.db.impl_method(AT + 'serialize::DomainSeparator', ty, 'domain')
    s = ctx.summ(f, args=[x]) if f else None
    return s.ret if s else None
def separated(ctx, hasher, ty, data):
    """does a value equal the hash of `data` under the domain of `ty`?  returns a test giving None or what is wrong"""
    d = domain(ctx, ty, data)
    def test(v):
        if v.op != 'call': return ('unk', show(v)[:200])
        n = v.a[0].split('::')[-1]
        if n not in ('hash_prefixed', 'hash'): return ('unk', show(v)[:200])
        if n == 'hash' or len(v.a) != 5: return ('bad', 'hashed without a domain separator')
        if v.a[2] is not hasher: return ('bad', 'hashed with %s' % show(v.a[2])[:100])
        if d is None: return ('unk', 'domain of %s' % ty)
        if v.a[3] is not d and ctx.tdiff(v.a[3], d): return ('bad', 'hashed under the domain %s instead of that of %s' % (show(v.a[3])[:160], ty))
        c = canonical(v.a[4])
        if c is None: return ('unk', show(v.a[4])[:200])
        if c is not data and ctx.tdiff(c, data): return ('bad', 'hashes %s instead of %s' % (show(c)[:120], show(data)[:120]))
        return None
    return test
def canonical(v):
    """x when v is the canonical encoding of x"""
    if v.op == 'fld' and v.a[0].op == 'call' and v.a[0].a[0].endswith('bcs::to_bytes'): return v.a[0].a[2]
    return None
def said(ctx, key, r, msg, where):
    if r is None: ctx.ok(key)
    elif r[0] == 'bad': ctx.bad(key, '%s: %s' % (msg, r[1]), where)
    else: ctx.unk(key, '%s: %s' % (msg, r[1]))
def verdict_of(call, kind='Ok'):
    """condition under which a verification call succeeded"""
    return is_ok(call)
def serialized(ctx, path, key):
    """the derived encoding of a type covers every one of its fields (of the named type and variant), in order"""
    a = ctx.db.adts.get(path)
    f = ctx.db.impl_method('serde_core::ser::Serialize', path, 'serialize')
    if a is None or f is None or f not in ctx.db.fns: ctx.unk(key, 'no encoding of %s found' % path); return
    s = ctx.summ(f); A = s.args[0]
    if s is None: return
    for vn, i, fields in [v[:3] for v in a['variants']]:
        g = 1 if a['kind'] == 'struct' else c_is(A, path, vn)
        evs = [e for e in s.events if e.kind == 'call' and e.path.split('::')[-1].startswith('serialize') and AND(e.cond, g) != 0]
        for n, ty, vis in fields:
            if isinstance(ty, (list, tuple)) and ty[0] == 'adt' and ty[1].endswith('PhantomData'): continue
            w = fld(A, '%s%s' % ('' if a['kind'] == 'struct' else vn + ':', n))
            if any(any(x is w for x in e.args) for e in evs): ctx.ok('%s.%s.%s' % (key, vn, n)); continue
            if any(contains(x, lambda y: y is w) or x is A for e in evs for x in e.args): ctx.unk('%s.%s.%s' % (key, vn, n), 'encoding of the field'); continue
            ctx.bad('%s.%s.%s' % (key, vn, n), 'the encoding of %s leaves out its field %s' % (path, n), s.loc)

# ---------------------------------------------------------------- A02: what the root covers
def fields_of(ctx, A, hasher):
    """[(kind, name, type, element)] for every field of a body"""
    b = ctx.db.adts.get(AT + 'Body')
    if b is None: return None
    out = []
    for n, ty, vis in b['variants'][0][2]:
        if ty[0] == 'adt' and ty[1] == AT + 'Field': out.append(('e', n, named(ty[2][0]), fld(A, n)))
        elif ty[0] == 'adt' and ty[1].endswith('::Vec') and ty[2] and ty[2][0][0] == 'adt' and ty[2][0][1] == AT + 'Field': out.append(('s', n, named(ty[2][0][2][0]), fld(A, n)))
        else: out.append(('?', n, str(ty)[:60], fld(A, n)))
    return out
def partial(v):
    """the list of which v is a proper part"""
    while v.op in ('filter', 'slice') or peel(v) is not v or v.op == 'coll' and v.a[1] is V.elem(v.a[0]): v = peel(v) if peel(v) is not v else v.a[0]
    return v
def covered(ctx, key, s, v, A, hasher, where):
    """v lists (identifier, separated hash) of every field of the body A exactly once"""
    base = peel(v)
    if base.op != 'seq': ctx.unk(key, 'list of hashed fields: %s' % show(v)[:200]); return
    parts = list(base.a)
    fs = fields_of(ctx, A, hasher)
    if fs is None: ctx.unk(key, 'no body type'); return
    used = set()
    for kind, n, ty, x in fs:
        k = '%s.%s' % (key, n)
        if kind == '?': ctx.unk(k, 'field of type %s' % ty); continue
        hit = None
        for i, p in enumerate(parts):
            y = p.a[0]
            if kind == 'e' and p.op == 'e': e, src = y, x
            elif kind == 's' and p.op == 's' and y.op == 'coll': e, src = y.a[1], V.elem(y.a[0])
            else: continue
            if kind == 's' and peel(y.a[0]) is not x: continue
            if kind == 'e' and not contains(e, lambda z: z is fld(x, 'data')): continue
            hit = (i, e, src); break
        part = [p.a[0] for p in parts if p.op == 's' and p.a[0].op == 'coll' and partial(p.a[0].a[0]) is x]
        if hit is None and part: ctx.bad(k, 'only some of the %s are hashed: %s' % (n, show(part[0].a[0])[:120]), where); continue
        if hit is None:
            if any(contains(p.a[0], lambda z: z is x) for p in parts): ctx.unk(k, 'hash of the field'); continue
            ctx.bad(k, 'the field %s is not among the hashed fields' % n, where); continue
        i, e, src = hit; used.add(i)
        ctx.value(k + '.id', fld(e, '0'), fld(src, 'id'), 'the hash of %s stands under its own identifier' % n, where)
        said(ctx, k + '.hash', separated(ctx, hasher, ty, fld(src, 'data'))(fld(e, '1')), 'hash of the field %s' % n, where)
    extra = [i for i in range(len(parts)) if i not in used]
    if extra and all(any(not r for r in [1]) or True for i in extra):
        if used and len(used) == len([f for f in fs if f[0] != '?']): ctx.bad(key + '.extra', 'hashes something that is not a field: %s' % show(parts[extra[0]].a[0])[:200], where)
        else: ctx.unk(key + '.extra', 'parts not understood: %d' % len(extra))
    t = v; sorts = []
    while t.op == 'eff' and t.a[1] == 0 and t.a[0].op == 'call' and peel(t) is not t: sorts.append(t.a[0]); t = t.a[0].a[2]
    if not sorts: ctx.unk(key + '.order', 'the fields are not brought into the order of their identifiers')
    else:
        c = sorts[0]; nm = c.a[0].split('::')[-1]
        clo = [x for x in c.a[3:] if x.op == 'clo']
        if nm in ('sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key') and clo:
            g = clo[0].a[0]; g = g if g in ctx.db.fns else None
            k = ctx.summ(g) if g else None
            if k is None: ctx.unk(key + '.order', nm)
            else:
                r = ctx.tdiff(k.ret, fld(k.args[-1], '0'))
                if r is None or ctx.tdiff(k.ret, fld(fld(k.args[-1], '0'), '0')) is None: ctx.ok(key + '.order')
                else: ctx.bad(key + '.order', 'the fields are ordered by %s' % show(k.ret)[:100], where)
        elif nm.startswith('reverse'): ctx.bad(key + '.order', 'the fields are reversed', where)
        else: ctx.unk(key + '.order', nm)

def A02(ctx):
    start(ctx)
    f = ctx.fn('Body::hash_fields'); s = ctx.summ(f)
    if s: covered(ctx, 'A02.fields', s, s.ret, s.args[0], s.args[1], s.loc)
    f = ctx.fn('Body::root'); s = ctx.summ(f, stop=r'Body::hash_fields$')
    if s:
        h = [e for e in calls(s, 'hash_fields') if e.args[0] is s.args[0]]
        if not h: ctx.bad('A02.root', 'the root is not computed over the hashed fields', s.loc)
        else:
            ctx.value('A02.root.hasher', h[0].args[1], s.args[1], 'with the same hasher', s.loc)
            L = h[0].res
            leaves_ = [x for x in subterms(s.ret) if x.op == 'coll' and peel(x.a[0]) is L]
            part = [x for x in subterms(s.ret) if x.op == 'coll' and peel(x.a[0]) is not L and partial(x.a[0]) is L and peel(x.a[0]).op in ('filter', 'slice')] or [x for x in subterms(s.ret) if x.op in ('slice', 'filter') and partial(x) is L or x.op in ('slice', 'filter') and listed(x.a[0]).op == 'coll' and partial(listed(x.a[0]).a[0]) is L]
            if part: ctx.bad('A02.root.leaves', 'the tree leaves out fields: %s' % show(part[0])[:120], s.loc)
            elif leaves_: column(ctx, 'A02.root.leaves', leaves_[0], L, '1', 'the leaves of the tree', s.loc)
            else: (ctx.bad if not contains(s.ret, lambda x: x is L) else ctx.unk)('A02.root.leaves', 'the root is computed over %s' % show(s.ret)[:200], *([s.loc] if not contains(s.ret, lambda x: x is L) else []))
            if leaves_ and leaves_[0].a[0] is not L: ctx.bad('A02.root.order', 'the leaves are reordered', s.loc)
            ids = [e for e in s.events if e.kind == 'call' and e.path.endswith('HashAlgorithm::id')]
            if ids: ctx.value('A02.root.alg', fld(s.ret, 'alg'), ids[0].res, 'the root names its algorithm', s.loc)
    # one domain per type
    seen = {}
    for im in ctx.db.impls:
        if not im['trait'].endswith('serialize::DomainSeparator') or not im['trait'].startswith('tlsn_attestation'): continue
        ty = named(im['args'][0])
        for n, fid in im['items']:
            if n != 'domain': continue
            c = [g for g in ctx.db.fns if g.startswith(fid + '::') and '{closure' in g]
            if len(c) != 1: ctx.unk('A02.domain.%s' % ty, 'domain separator'); continue
            t = ctx.summ(c[0])
            ds = digests(t.ret)
            strs = [x for x in subterms(t.ret) if x.op in ('str', 'bytes', 'cstr')] or [x for d in ds for x in d[1]]
            if not ds: ctx.unk('A02.domain.%s' % ty, show(t.ret)[:200]); continue
            d = ds[0]; inp = d[1][0] if len(d[1]) == 1 else None
            if inp is None or contains(inp, lambda x: x.op in ('arg', 'call', 'lv')): ctx.unk('A02.domain.%s' % ty, show(t.ret)[:200]); continue
            w = t.ret
            if w.op == 'slice':
                n = V.sub(w.a[2], w.a[1])
                if V.is_int(n) and n.a[0] < 8: ctx.bad('A02.domain.%s' % ty, 'the domain separator has only %d bytes' % n.a[0], t.loc)
            key = (d[0], inp)
            if key in seen: ctx.bad('A02.domain.%s' % ty, 'shares its domain %s with %s' % (show(inp)[:60], seen[key]), t.loc)
            else: seen[key] = ty; ctx.ok('A02.domain.%s' % ty)
    # hash_separated is the hash of domain and canonical encoding (for every type: it is one generic function)
    # encodings cover all fields
    for p in ('Header', 'Version', 'Uid', 'FieldId', 'connection::ServerCertCommitment', 'connection::ServerCertOpening', 'signing::VerifyingKey', 'signing::KeyAlgId', 'extension::Extension'):
        serialized(ctx, AT + p, 'A02.encoding.' + p.split('::')[-1])
    for p in ('connection::ConnectionInfo', 'connection::ServerEphemKey', 'connection::TlsVersion', 'connection::TranscriptLength', 'connection::KeyType', 'transcript::commit::TranscriptCommitment', 'transcript::hash::PlaintextHash', 'hash::TypedHash', 'connection::HandshakeData', 'connection::CertBindingV1_2', 'connection::ServerSignature', 'connection::CertBinding'):
        serialized(ctx, CO + p, 'A02.encoding.' + p.split('::')[-1])

# ---------------------------------------------------------------- A01
MP = r'merkle::MerkleProof::verify$'
def got(s, okc, tail):
    """results of the calls named `tail` on which the accepted cases depend"""
    return [e for e in calls(s, tail) if contains_atom(okc, e.res)]
def contains_atom(c, x): return any(isinstance(ATOMS[v][1], Term) and contains(ATOMS[v][1], lambda y: y is x) for v in B.support(c))
def signed(ctx, key, s, okc, alg, vk, header, sig, providers):
    """accepted only after the verifier registered for the algorithm verified the signature over the encoded header under the key"""
    vs = [e for e in calls(s, 'verify') if e.path.endswith('SignatureVerifier::verify') and len(e.args) == 4]
    g = 0
    for e in vs:
        v, k, m, d = e.args
        src = [c for c in calls(s, 'get') if c.path.endswith('HashMap::get') and contains(v, lambda y: y is c.res)]
        r = [ctx.tdiff(k, vk, okc), ctx.tdiff(d, sig, okc)]
        c = canonical(m)
        r.append(ctx.tdiff(c, header, okc) if c is not None else ('unk', 'message %s' % show(m)[:120]))
        if not src: r.append(('unk', 'verifier %s' % show(v)[:120]))
        for q in src:
            if ctx.tdiff(q.args[1], alg, okc): r.append(('bad', 'the verifier of another algorithm: %s' % show(q.args[1])[:100]))
            if not contains(q.args[0], lambda y: y is providers): r.append(('bad', 'verifier taken from %s' % show(q.args[0])[:100]))
        if all(x is None for x in r): g = OR(g, is_ok(e.res))
        else:
            w = [x for x in r if x]
            said(ctx, key + '.call', ('bad' if any(x[0] == 'bad' for x in w) else 'unk', w[0][1]), 'signature verification', s.loc)
    if not vs: ctx.bad(key, 'accepted without verifying the signature', s.loc)
    elif g: ctx.require(key, okc, g, 'the signature verifies', s.loc)
def included(ctx, key, s, okc, proof, body, root, care=1):
    """accepted only if every hashed field of the body is proven included under the root"""
    hs = [e for e in calls(s, 'hash_fields')]
    g = 0; ps = [e for e in calls(s, 'verify') if 'MerkleProof' in e.path and len(e.args) == 4]
    for e in ps:
        p, h, r, lv = e.args
        w = []
        if ctx.tdiff(p, proof, okc): w.append(('bad', 'another proof: %s' % show(p)[:80]))
        if ctx.tdiff(r, root, okc): w.append(('bad', 'against another root: %s' % show(r)[:80]))
        lv = listed(lv)
        src = [x for x in hs if contains(lv, lambda y: y is x.res)]
        if not src: w.append(('bad' if not contains(lv, lambda y: y is body) else 'unk', 'leaves: %s' % show(lv)[:120]))
        else:
            x = src[0]
            if ctx.tdiff(x.args[0], body, okc): w.append(('bad', 'the fields of %s' % show(x.args[0])[:80]))
            if x.args[1] is not h: w.append(('bad', 'hashed with another hasher'))
            if lv.op == 'coll' and peel(lv.a[0]) is x.res:
                el = V.elem(lv.a[0])
                d = ctx.tdiff(V.mktuple([fld(lv.a[1], '0'), fld(lv.a[1], '1')]) if 0 else fld(lv.a[1], '1'), fld(el, '1'))
                if d: w.append((d[0], 'leaf %s' % show(fld(lv.a[1], '1'))[:80]))
                i = fld(lv.a[1], '0')
                while i.op in ('trunc', 'cast', 'zext'): i = i.a[0]
                if i is not fld(fld(el, '0'), '0') and ctx.tdiff(i, fld(fld(el, '0'), '0')): w.append(('bad', 'position %s' % show(i)[:80]))
            else: w.append(('bad' if lv.op in ('filter', 'slice') or lv.op == 'coll' and peel(lv.a[0]).op in ('filter', 'slice') else 'unk', 'not all fields: %s' % show(lv)[:120]))
            hg = [c for c in calls(s, 'get') if c.path.endswith('HashMap::get') and contains(h, lambda y: y is c.res)]
            for c in hg:
                if ctx.tdiff(c.args[1], fld(root, 'alg'), okc): w.append(('bad', 'hasher of another algorithm: %s' % show(c.args[1])[:80]))
        if not w: g = OR(g, is_ok(e.res))
        else: said(ctx, key + '.call', ('bad' if any(x[0] == 'bad' for x in w) else 'unk', [x for x in w if x[0] == 'bad' or all(y[0] != 'bad' for y in w)][0][1]), 'proof of inclusion', s.loc)
    if not ps: ctx.bad(key, 'accepted without verifying the proof of inclusion', s.loc)
    elif g: ctx.require(key, okc, g, 'the proof of inclusion verifies', s.loc)

def A01(ctx):
    start(ctx)
    f = ctx.fn('proof::AttestationProof::verify'); s = ctx.summ(f, stop=MP + r'|Body::hash_fields$')
    if s:
        A, P = s.args[:2]; okc = okcond(s); v = okval(s)
        body = fld(A, 'body.body')
        signed(ctx, 'A01.signature', s, okc, fld(A, 'signature.alg'), fld(body, 'verifying_key.data'), fld(A, 'header'), fld(A, 'signature.data'), fld(P, 'signature'))
        included(ctx, 'A01.body', s, okc, fld(A, 'body.proof'), body, fld(A, 'header.root'))
        for n, w in (('signature', fld(A, 'signature')), ('header', fld(A, 'header')), ('body', body)):
            ctx.value('A01.value.' + n, fld(v, n), w, 'the verified %s is returned' % n, s.loc, care=okc)
    f = ctx.fn('proof::BodyProof::verify_with_provider'); s = ctx.summ(f, stop=MP + r'|Body::hash_fields$')
    if s:
        okc = okcond(s)
        included(ctx, 'A01.bodyproof', s, okc, fld(s.args[0], 'proof'), fld(s.args[0], 'body'), fld(s.args[2], 'root'))
        ctx.value('A01.bodyproof.value', okval(s), fld(s.args[0], 'body'), 'the proven body is returned', s.loc, care=okc)
    f = ctx.fn('proof::AttestationProof::verifying_key'); s = ctx.summ(f)
    if s: ctx.value('A01.key', s.ret, fld(s.args[0], 'body.body.verifying_key.data'), 'the key shown is the one used', s.loc)
    for p, m in (('signing::SignatureVerifierProvider', 'verifiers'), ('signing::SignerProvider', 'signers')):
        f = ctx.fn(p + '::get'); s = ctx.summ(f)
        if s:
            c = [e for e in calls(s, 'get') if e.path.endswith('HashMap::get')]
            if not c: ctx.unk('A01.get.' + m, show(s.ret)[:100]); continue
            ctx.value('A01.get.%s.map' % m, c[0].args[0], fld(s.args[0], m), 'looked up among the registered', s.loc)
            ctx.value('A01.get.%s.alg' % m, c[0].args[1], s.args[1], 'by the algorithm asked for', s.loc)
            ctx.value('A01.get.%s.value' % m, okval(s), fld(c[0].res, 'Some:0'), 'what is registered', s.loc, care=okcond(s))
            ctx.require('A01.get.%s.found' % m, okcond(s), V.is_some(c[0].res), 'only what is registered', s.loc)

# ---------------------------------------------------------------- A03
def A03(ctx):
    start(ctx)
    f = ctx.fn('presentation::Presentation::verify')
    s = ctx.summ(f, stop=r'AttestationProof::verify$|ServerIdentityProof::verify_with_provider$|TranscriptProof::verify_with_provider$')
    if s:
        A, P = s.args[:2]; okc = okcond(s); v = okval(s)
        at = [e for e in calls(s, 'verify') if 'AttestationProof' in e.path]
        g = [e for e in at if ctx.tdiff(e.args[0], fld(A, 'attestation'), okc) is None and ctx.tdiff(e.args[1], P, okc) is None]
        if not g: ctx.bad('A03.attestation', 'accepted without verifying the attestation', s.loc)
        else:
            r = g[0].res; ctx.require('A03.attestation', okc, is_ok(r), 'the attestation proof verifies', s.loc)
            b = fld(r, 'Ok:0.body')
            ci = fld(b, 'connection_info.data')
            ctx.value('A03.out.attestation', fld(v, 'attestation'), fld(r, 'Ok:0'), 'the verified attestation is returned', s.loc, care=okc)
            ctx.value('A03.out.info', fld(v, 'connection_info'), ci, 'the attested connection is returned', s.loc, care=okc)
            x = fld(v, 'extensions'); E = fld(b, 'extensions')
            ctx.value('A03.out.extensions', x, V.coll(V.mkseq([T('s', T('coll', E, fld(V.elem(E), 'data')))])) if 0 else T('coll', E, fld(V.elem(E), 'data')), 'the attested extensions are returned', s.loc, care=okc)
            tc = fld(b, 'transcript_commitments')
            for n, part, tail, want in (('server_name', 'identity', 'ServerIdentityProof', [P, fld(ci, 'time'), fld(b, 'server_ephemeral_key.data'), fld(b, 'cert_commitment.data')]),
                                        ('transcript', 'transcript', 'TranscriptProof', [fld(P, 'hash'), fld(ci, 'transcript_length'), T('coll', tc, fld(V.elem(tc), 'data'))])):
                o = fld(A, part); sm = AND(okc, V.is_some(o)); cs = [e for e in s.events if e.path.endswith('verify_with_provider') and tail in e.path and e.res is not None]
                hit = None
                for e in cs:
                    r_ = [ctx.tdiff(e.args[0], fld(o, 'Some:0'), sm)] + [ctx.tdiff(listed(x) if i == 2 and part == 'transcript' else x, w, sm) for i, (x, w) in enumerate(zip(e.args[1:], want))]
                    if all(y is None for y in r_): hit = e
                    else:
                        w = [y for y in r_ if y]
                        said(ctx, 'A03.%s.call' % part, ('bad' if any(y[0] == 'bad' for y in w) else 'unk', w[0][1]), 'verification of the %s' % part, s.loc)
                if not cs: ctx.bad('A03.' + part, 'accepted without verifying the %s' % part, s.loc)
                if hit is None: continue
                ctx.require('A03.' + part, sm, is_ok(hit.res), 'the %s verifies' % part, s.loc)
                spec = V.choice([(V.is_some(o), V.Some(fld(hit.res, 'Ok:0'))), (NOT(V.is_some(o)), V.NONE)])
                ctx.value('A03.out.' + n, fld(v, n), spec, 'what was verified is returned', s.loc, care=okc)
    f = ctx.fn('connection::ServerIdentityProof::verify_with_provider'); s = ctx.summ(f, stop=r'HandshakeData::verify$')
    if s:
        A, P, time, key, com = s.args; okc = okcond(s); op = fld(A, 'opening')
        hs = [e for e in calls(s, 'verify') if 'HandshakeData' in e.path]
        hit = None
        for e in hs:
            want = [fld(op, '0.data'), fld(P, 'cert'), time, key, fld(A, 'name')]
            r = [ctx.tdiff(x, w, okc) for x, w in zip(e.args, want)]
            if len(e.args) == 5 and all(x is None for x in r): hit = e
            else: said(ctx, 'A03.handshake.call', ('bad' if any(x and x[0] == 'bad' for x in r) else 'unk', [x for x in r if x][0][1] if any(r) else 'arguments'), 'verification of the handshake', s.loc)
        if not hs: ctx.bad('A03.handshake', 'accepted without verifying the handshake', s.loc)
        elif hit: ctx.require('A03.handshake', okc, is_ok(hit.res), 'the certificate and handshake verify', s.loc)
        hm = [e for e in calls(s, 'get') if e.path.endswith('HashMap::get') and contains(e.args[0], lambda y: y is fld(P, 'hash'))]
        hp = [e for e in s.events if e.kind == 'call' and e.path.split('::')[-1] in ('hash_prefixed', 'hash') and e.res is not None]
        g = 0; why = None
        for e in hp:
            src = [q for q in hm if contains(e.args[0], lambda y: y is q.res)]
            t = separated(ctx, e.args[0], AT + 'connection::ServerCertOpening', op)(e.res)
            if t is None and src and ctx.tdiff(src[0].args[1], fld(com, '0.alg'), okc) is None: g = OR(g, alike(ctx, CO + 'hash::Hash', fld(com, '0.value'), e.res)); g = OR(g, c_eq(e.res, fld(com, '0.value')))
            else: why = t or ('bad', 'hashed with another algorithm')
        if g: ctx.require('A03.commitment', focus(okc, fld(com, '0.value')), g, 'the opening matches the commitment', s.loc)
        elif why: said(ctx, 'A03.commitment', why, 'the opening is compared with the commitment', s.loc)
        else: ctx.bad('A03.commitment', 'accepted without comparing the opening with the commitment', s.loc)
        ctx.value('A03.name', okval(s), fld(A, 'name'), 'the verified name is returned', s.loc, care=okc)
    for n, w in (('connection_info', 'connection_info.data'), ('server_ephemeral_key', 'server_ephemeral_key.data'), ('cert_commitment', 'cert_commitment.data'), ('verifying_key', 'verifying_key.data')):
        f = ctx.fn('Body::' + n); t = ctx.summ(f)
        if t: ctx.value('A03.body.' + n, t.ret, fld(t.args[0], w), 'the field of that name', t.loc)

# ---------------------------------------------------------------- A06
def A06(ctx):
    start(ctx)
    f = ctx.fn('request::Request::validate'); s = ctx.summ(f)
    if not s: return
    R, A, P = s.args[:3]; okc = okcond(s)
    ctx.require('A06.signature_alg', focus(okc, fld(R, 'signature_alg')), alike(ctx, AT + 'signing::SignatureAlgId', fld(A, 'signature.alg'), fld(R, 'signature_alg')), 'the signature algorithm is the one requested', s.loc)
    ctx.require('A06.hash_alg', focus(okc, fld(R, 'hash_alg')), alike(ctx, CO + 'hash::HashAlgId', fld(A, 'header.root.alg'), fld(R, 'hash_alg')), 'the hash algorithm is the one requested', s.loc)
    ctx.require('A06.commitment', focus(okc, fld(R, 'server_cert_commitment')), alike(ctx, AT + 'connection::ServerCertCommitment', fld(A, 'body.cert_commitment.data'), fld(R, 'server_cert_commitment')), 'the certificate commitment is the one requested', s.loc)
    X = fld(R, 'extensions'); Y = fld(A, 'body.extensions')
    want = 0
    for same in alikes(ctx, AT + 'extension::Extension', fld(V.elem(Y), 'data'), V.elem(X)): want = OR(want, M.mk_all(X, NOT(M.mk_all(Y, NOT(same)))))
    k = okc
    ctx.require('A06.extensions', focus(k, X, Y), want, 'every extension requested is attested', s.loc, vocab=over(k, X))
    signed(ctx, 'A06.signature', s, okc, fld(A, 'signature.alg'), fld(A, 'body.verifying_key.data'), fld(A, 'header'), fld(A, 'signature.data'), fld(P, 'signature'))

# ---------------------------------------------------------------- A04
def A04(ctx):
    start(ctx)
    f = [x for x in ctx.db.fns if norm(x).endswith('::accept_request') and x.startswith('tlsn_attestation::builder')]
    s = ctx.summ(ctx.fn(f[0])) if len(f) == 1 else ctx.fn('builder::AttestationBuilder::accept_request')
    if s:
        A, R = s.args[:2]; okc = okcond(s); v = okval(s); C = fld(A, 'config')
        for n, lst, ty, r in (('signature', 'supported_signature_algs', AT + 'signing::SignatureAlgId', 'signature_alg'), ('hash', 'supported_hash_algs', CO + 'hash::HashAlgId', 'hash_alg')):
            X = fld(C, lst); want = 0
            for g in alikes(ctx, ty, V.elem(X), fld(R, r)): want = OR(want, NOT(M.mk_all(X, NOT(g))))
            # membership as an opaque search of the list for the value
            for e in calls(s, 'contains', 2):
                if ctx.tdiff(e.args[0], X) is None and ctx.tdiff(e.args[1], fld(R, r)) is None: want = OR(want, V.cond(e.res))
            k = focus(okc, X, fld(R, r))
            ctx.require('A04.supported.' + n, k, want, 'only a %s algorithm the notary supports' % n, s.loc, vocab=over(k, X))
        val = fld(C, 'extension_validator'); g = NOT(V.is_some(val)); bad = None
        for e in s.events:
            if e.res is None or not e.args or e.path != 'callv' or not contains(e.args[0], lambda y: y is fld(val, 'Some:0')): continue
            if len(e.args) == 2 and ctx.tdiff(e.args[1], fld(R, 'extensions'), okc) is None: g = OR(g, is_ok(e.res))
            else: bad = e
        if bad is not None and AND(okc, NOT(g)) != 0: ctx.bad('A04.validator', 'the validator is given %s' % show(bad.args[1])[:120], s.loc)
        else: ctx.require('A04.validator', focus(okc, val), g, 'only extensions the configured validator accepts', s.loc)
        ctx.value('A04.accept.config', fld(v, 'config'), C, 'the configuration is kept', s.loc, care=okc)
        st = fld(v, 'state')
        for n, w in (('signature_alg', fld(R, 'signature_alg')), ('hash_alg', fld(R, 'hash_alg')), ('cert_commitment', fld(R, 'server_cert_commitment')), ('extensions', fld(R, 'extensions')), ('connection_info', V.NONE), ('server_ephemeral_key', V.NONE)):
            ctx.value('A04.accept.' + n, fld(st, n), w, '%s is what was requested, or still to be given' % n, s.loc, care=okc)
        ctx.value('A04.accept.commitments', fld(st, 'transcript_commitments'), V.mkseq([]), 'no commitment is attested unless given', s.loc, care=okc)
    f = [x for x in ctx.db.fns if norm(x).endswith('::build') and x.startswith('tlsn_attestation::builder')]
    s = ctx.summ(ctx.fn(f[0]), stop=r'Body::root$') if len(f) == 1 else ctx.fn('builder::AttestationBuilder::build')
    if s:
        A, P = s.args[:2]; okc = okcond(s); v = okval(s); S = fld(A, 'state'); b = fld(v, 'body'); h = fld(v, 'header')
        def lookup(tab, alg):
            for e in s.events:
                if e.kind == 'call' and e.path.endswith('HashMap::get') and contains(e.args[0], lambda y: y is fld(P, tab)) and ctx.tdiff(e.args[1], fld(S, alg)) is None: return e.res
        sg, hs = lookup('signer', 'signature_alg'), lookup('hash', 'hash_alg')
        for n, r in (('signer', sg), ('hasher', hs)):
            if r is None: ctx.bad('A04.' + n, 'the %s of the accepted algorithm is not looked up' % n, s.loc)
            else: ctx.require('A04.' + n, okc, V.is_some(r), 'only with a configured %s' % n, s.loc)
        if sg is not None and hs is not None:
            sg, hs = fld(sg, 'Some:0'), fld(hs, 'Some:0')
            vk = [e for e in calls(s, 'verifying_key') if e.path.endswith('Signer::verifying_key')]
            if len(vk) and any(e.args[0] is sg for e in vk): ctx.value('A04.build.verifying_key', fld(b, 'verifying_key.data'), [e for e in vk if e.args[0] is sg][0].res, 'the key of the signer', s.loc, care=okc)
            else: ctx.bad('A04.build.verifying_key', 'not the key of the signer: %s' % show(fld(b, 'verifying_key.data'))[:120], s.loc)
            rt = [e for e in calls(s, 'root') if e.path.endswith('Body::root')]
            rt_ok = [e for e in rt if ctx.tdiff(e.args[0], b, okc) is None and ctx.tdiff(e.args[1], hs, okc) is None]
            if rt_ok: ctx.value('A04.build.root', fld(h, 'root'), rt_ok[0].res, 'the root of the body', s.loc, care=okc)
            else: ctx.bad('A04.build.root', 'the root is not that of the attested body under the accepted algorithm', s.loc) if rt else ctx.bad('A04.build.root', 'no root computed', s.loc)
            sn = [e for e in calls(s, 'sign') if e.path.endswith('Signer::sign')]
            hit = [e for e in sn if ctx.tdiff(e.args[0], sg, okc) is None and canonical(e.args[1]) is not None and ctx.tdiff(canonical(e.args[1]), h, okc) is None]
            if hit:
                ctx.value('A04.build.signature', fld(v, 'signature'), fld(hit[0].res, 'Ok:0'), 'the signature over the header', s.loc, care=okc)
                ctx.require('A04.build.signed', okc, is_ok(hit[0].res), 'signing succeeded', s.loc)
            else: ctx.bad('A04.build.signature', 'the header is not what is signed by the signer', s.loc)
        for n in ('connection_info', 'server_ephemeral_key'):
            o = fld(S, n)
            ctx.require('A04.build.%s.given' % n, okc, V.is_some(o), 'a missing %s is an error' % n, s.loc)
            ctx.value('A04.build.' + n, fld(b, n + '.data'), fld(o, 'Some:0'), 'the %s the notary was given' % n, s.loc, care=okc)
        ctx.value('A04.build.cert_commitment', fld(b, 'cert_commitment.data'), fld(S, 'cert_commitment'), 'the commitment of the request', s.loc, care=okc)
        ids = [(n, fld(fld(b, n), 'id.0')) for n in ('verifying_key', 'connection_info', 'server_ephemeral_key', 'cert_commitment')]
        for i, (n, x) in enumerate(ids):
            for m, y in ids[:i]:
                d = V.sub(x, y)
                if V.is_int(d) and d.a[0] != 0: ctx.ok('A04.ids.%s.%s' % (m, n))
                elif V.is_int(d): ctx.bad('A04.ids.%s.%s' % (m, n), '%s and %s have the same identifier' % (m, n), s.loc)
                else: ctx.unk('A04.ids.%s.%s' % (m, n), show(d)[:100])
        for n in ('extensions', 'transcript_commitments'):
            x = fld(b, n); x = coll_(x); X = fld(S, n); key = 'A04.build.' + n
            if x.op == 'call' and x.a[0].endswith('Iterator::map') and x.a[3].op == 'clo':
                src, clo = listed(x.a[2]), x.a[3]
                if src is not X and ctx.tdiff(src, X, okc): ctx.bad(key, 'built from %s' % show(src)[:120], s.loc); continue
                k = ctx.summ(clo.a[0]) if clo.a[0] in ctx.db.fns else None
                if k is None: ctx.unk(key, 'closure'); continue
                ctx.value(key, fld(k.ret, 'data'), k.args[-1], 'the %s are attested as given' % n, s.loc)
                i = fld(k.ret, 'id')
                if not contains(i, lambda y: y is k.args[0]) : ctx.bad(key + '.id', 'the identifier %s does not advance from field to field' % show(i)[:80], s.loc)
                else: ctx.ok(key + '.id')
                for c in [c for c in clo.a[2:] if c.op == 'agg' and c.a[0] == AT + 'FieldId']:
                    for m, y in ids:
                        d = V.sub(fld(c, '0'), y)
                        if V.is_int(d) and d.a[0] >= 1: ctx.ok('%s.after.%s' % (key, m))
                        elif V.is_int(d): ctx.bad('%s.after.%s' % (key, m), 'the identifiers of the %s start at that of %s or before' % (n, m), s.loc)
                        else: ctx.unk('%s.after.%s' % (key, m), show(d)[:100])
            else:
                lv = listed(x)
                if lv.op == 'coll' and (peel(lv.a[0]) is X): ctx.value(key, fld(lv.a[1], 'data'), V.elem(lv.a[0]), 'the %s are attested as given' % n, s.loc)
                elif not contains(x, lambda y: y is X): ctx.bad(key, 'the %s attested are %s' % (n, show(x)[:120]), s.loc)
                else: ctx.unk(key, show(x)[:120])
        ctx.value('A04.build.version', fld(h, 'version.0'), I(0), 'the current version', s.loc, care=okc)
    f = ctx.fn('FieldId::next'); s = ctx.summ(f)
    if s:
        ctx.value('A04.next.id', fld(s.ret, 'id'), s.args[0], 'the identifier is the current one', s.loc)
        ctx.value('A04.next.data', fld(s.ret, 'data'), s.args[1], 'the data are the given', s.loc)
        n = s.final(s.args[0])
        for k, x in leaves(fld(n, '0'), 1):
            d = V.sub(x, fld(s.args[0], '0'))
            if V.is_int(d) and d.a[0] >= 1: ctx.ok('A04.next.step')
            elif V.is_int(d): ctx.bad('A04.next.step', 'the next field may get the same identifier', s.loc)
            else: ctx.unk('A04.next.step', show(d)[:100])
    for n, w in (('supported_signature_algs', 'supported_signature_algs'), ('supported_hash_algs', 'supported_hash_algs')):
        f = ctx.fn('config::AttestationConfig::' + n); s = ctx.summ(f)
        if s: ctx.value('A04.config.' + n, s.ret, fld(s.args[0], w), 'the configured algorithms', s.loc)
def atoms(c): return [(v, ATOMS[v][1]) for v in sorted(B.support(c)) if isinstance(ATOMS[v][1], Term)]

# ---------------------------------------------------------------- A05
ALGS = (('secp256k1', 'Secp256k1', 1, 1, 'k256', None, 'SECP256K1'), ('secp256r1', 'Secp256r1', 2, 2, 'p256', None, 'SECP256R1'), ('secp256k1eth', 'Secp256k1Eth', 3, 1, 'k256', 'keccak:v256', 'SECP256K1ETH'))
def from_lib(e, lib): return e.path.startswith(lib + '::') or lib + '::' in ' '.join(str(x) for x in (e.res.a if e.res is not None and e.res.op == 'call' else ()) if isinstance(x, str))
def over_message(ctx, x, msg, fam):
    """None when x is the message itself (or, with a family, its digest)"""
    if fam is None: return ctx.tdiff(x, msg)
    ds = [d for d in digests(x)]
    if not ds and x.op == 'eff' and x.a[0].op == 'call' and x.a[0].a[0].split('::')[-1].startswith('finalize'): ds = digests(x.a[0])
    if not ds: return ('bad', 'the message is not hashed') if x is msg or not contains(x, lambda y: y.op == 'call') else ('unk', show(x)[:100])
    f, ins, t = ds[0]
    if f != fam: return ('bad', 'hashed with %s instead of %s' % (f, fam))
    r = ctx.tdiff(V.mkseq([T('s', i) for i in ins]), V.mkseq([T('s', msg)]))
    return r and ('bad', 'the digest is over %s' % ', '.join(show(i)[:60] for i in ins))
def A05(ctx):
    start(ctx)
    SP = 'signing::'
    ids = {}
    for mod, ty, n, kn, lib, fam, cst in ALGS:
        key = 'A05.' + mod
        k = ctx.summ(ctx.fn(SP + 'SignatureAlgId::' + cst))
        if k: ctx.value(key + '.id', fld(k.ret, '0'), I(n), 'the identifier of %s is %d' % (mod, n), k.loc)
        sty, vty = SP + '%s::%sSigner' % (mod, ty), SP + '%s::%sVerifier' % (mod, ty)
        for t, tr in ((sty, 'Signer'), (vty, 'SignatureVerifier')):
            s = ctx.summ(ctx.method(SP + tr, t, 'alg_id'))
            if s: ctx.value('%s.%s.alg_id' % (key, tr), fld(s.ret, '0'), I(n), '%s reports its own identifier' % t.split('::')[-1], s.loc)
        s = ctx.summ(ctx.method(SP + 'Signer', sty, 'verifying_key'))
        if s:
            ctx.value(key + '.key.alg', fld(s.ret, 'alg.0'), I(kn), 'the key names its algorithm', s.loc)
            e = [x for x in s.events if x.kind == 'call' and x.path.split('::')[-1] in ('to_sec1_bytes', 'to_encoded_point', 'to_sec1_point')]
            if e: ctx.ok(key + '.key.data')
            else: ctx.unk(key + '.key.data', show(s.ret)[:120])
        s = ctx.summ(ctx.method(SP + 'Signer', sty, 'sign'))
        if s:
            okc = okcond(s); v = okval(s)
            ctx.value(key + '.sign.alg', fld(v, 'alg.0'), I(n), 'the signature names its algorithm', s.loc, care=okc)
            es = [x for x in s.events if x.kind == 'call' and x.res is not None and x.path.split('::')[-1] in ('sign', 'try_sign', 'sign_prehash_recoverable', 'sign_recoverable', 'sign_prehash', 'sign_digest', 'sign_digest_recoverable', 'sign_prehash_rfc6979')]
            if not es: ctx.bad(key + '.sign', 'nothing is signed', s.loc)
            else:
                e = es[0]; nm = e.path.split('::')[-1]
                if len(e.args) >= 2 and ((fam is None) == (nm in ('sign', 'try_sign'))): said(ctx, key + '.sign.message', over_message(ctx, e.args[1], s.args[1], fam), 'what is signed', s.loc)
                elif fam is None and nm.startswith('sign_prehash') or fam is not None and nm in ('sign', 'try_sign', 'sign_recoverable'): ctx.bad(key + '.sign.message', 'signed with %s' % nm, s.loc)
                else: ctx.unk(key + '.sign.message', nm)
                d = fld(v, 'data')
                if not contains(d, lambda y: y is e.res): ctx.bad(key + '.sign.data', 'the signature is %s' % show(d)[:120], s.loc)
                elif fam is None:
                    ctx.ok(key + '.sign.data') if d.op == 'call' or d.op == 'seq' and len(d.a) == 1 else ctx.unk(key + '.sign.data', show(d)[:120])
                else:
                    rec = [x for x in calls(s, 'to_byte')]
                    if d.op == 'seq' and len(d.a) == 2 and d.a[1].op == 'e' and rec:
                        ctx.value(key + '.sign.v', d.a[1].a[0], V.add(rec[0].res, I(27)), 'the last byte is the recovery identifier plus 27', s.loc, care=okc)
                        ctx.require(key + '.sign.recid', focus(okc, rec[0].res), c_le(rec[0].res, I(1)), 'only the recovery identifiers 0 and 1', s.loc)
                        fst = d.a[0].a[0]
                        if contains(fst, lambda y: y is e.res) and not contains(fst, lambda y: y is rec[0].res): ctx.ok(key + '.sign.data')
                        else: ctx.unk(key + '.sign.data', show(fst)[:120])
                    else: ctx.unk(key + '.sign.data', show(d)[:160])
        s = ctx.summ(ctx.method(SP + 'SignatureVerifier', vty, 'verify'))
        if s:
            A, K, m, sg = s.args; okc = okcond(s)
            ctx.require(key + '.verify.key', okc, c_eq(fld(K, 'alg.0'), I(kn)), 'only keys of the algorithm', s.loc)
            kf = [x for x in calls(s, 'from_sec1_bytes') + calls(s, 'from_encoded_point')]
            sf = [x for x in calls(s, 'from_slice') + calls(s, 'try_from') + calls(s, 'from_bytes') if x.args and contains(x.args[0], lambda y: y is sg)]
            es = [x for x in s.events if x.kind == 'call' and x.res is not None and x.path.split('::')[-1] in ('verify', 'verify_prehash', 'verify_digest')]
            if not es: ctx.bad(key + '.verify', 'accepted without verifying', s.loc); continue
            g = 0; why = None
            for e in es:
                w = []
                if not kf or not contains(e.args[0], lambda y: y is kf[0].res): w.append(('unk', 'key %s' % show(e.args[0])[:100]))
                else:
                    if ctx.tdiff(kf[0].args[0], fld(K, 'data')): w.append(('bad', 'another key: %s' % show(kf[0].args[0])[:100]))
                    if not kf[0].path.startswith(lib + '::') and from_lib(kf[0], 'p256' if lib == 'k256' else 'k256'): w.append(('bad', 'a key of another curve'))
                if not sf or not contains(e.args[2], lambda y: y is sf[0].res): w.append(('unk', 'signature %s' % show(e.args[2])[:100]))
                else:
                    spec = sg if fam is None else V.mkslice(sg, I(0), I(64))
                    r = ctx.tdiff(sf[0].args[0], spec, okc)
                    if r: w.append((r[0], 'signature bytes: %s' % r[1]))
                nm = e.path.split('::')[-1]
                if (fam is None) != (nm == 'verify'): w.append(('bad', 'verified with %s' % nm) if nm in ('verify', 'verify_prehash') else ('unk', nm))
                else:
                    r = over_message(ctx, e.args[1], m, fam)
                    if r: w.append(r)
                if not w: g = OR(g, is_ok(e.res))
                else: why = ([x for x in w if x[0] == 'bad'] or w)[0]
            if g: ctx.require(key + '.verify', okc, g, 'the signature verifies', s.loc)
            else: said(ctx, key + '.verify', why, 'verification', s.loc)
            if fam is not None: ctx.require(key + '.verify.len', okc, c_eq(length(sg), I(65)), 'the signature has 65 bytes', s.loc)
    for n, i in (('K256', 1), ('P256', 2)):
        s = ctx.summ(ctx.fn(SP + 'KeyAlgId::' + n))
        if s: ctx.value('A05.keyalg.' + n, fld(s.ret, '0'), I(i), 'the identifier of %s is %d' % (n, i), s.loc)
    for t in ('KeyAlgId', 'SignatureAlgId'):
        f = ctx.fn(SP + t + '::new'); s = ctx.summ(f)
        if s:
            pan = ORS(*[e.cond for e in s.events if e.kind == 'panic'])
            ctx.same('A05.reserved.' + t, pan, V.c_lt(s.args[0], I(128)), 'user-defined identifiers below 128 are refused, and only those', s.loc)
            ctx.value('A05.new.' + t, fld(s.ret, '0'), s.args[0], 'a user-defined identifier is the given one', s.loc, care=NOT(pan))
        s = ctx.summ(ctx.method('core::cmp::PartialEq', SP + t, 'eq'))
        if s: ctx.same('A05.eq.' + t, V.cond(s.ret), same_int(fld(s.args[0], '0'), fld(s.args[1], '0')), 'identifiers are equal iff their numbers are', s.loc)
    # tables
    s = ctx.summ(ctx.method('core::default::Default', SP + 'SignatureVerifierProvider', 'default'))
    if s:
        ins = [e for e in s.events if e.kind == 'call' and e.path.endswith('HashMap::insert') and e.cond == 1]
        seen = {}
        for e in ins:
            i, v = fld(e.args[1], '0'), e.args[2]
            if not V.is_int(i) or v.op != 'agg': ctx.unk('A05.table', show(e.args[1])[:60]); continue
            f = ctx.db.impl_method(AT + SP + 'SignatureVerifier', v.a[0], 'alg_id'); t = ctx.summ(f) if f else None
            if t is None: ctx.unk('A05.table', v.a[0]); continue
            ctx.value('A05.table.%s' % v.a[0].split('::')[-1], i, fld(t.ret, '0'), 'registered under its own identifier', s.loc)
            seen[i.a[0]] = v.a[0]
        for mod, ty, n, *_ in ALGS:
            if n in seen or not ins: ctx.ok('A05.table.' + mod)
            elif contains(s.ret, lambda y: y.op == 'agg' and y.a[0].endswith(ty + 'Verifier')): ctx.unk('A05.table.' + mod, 'table')
            else: ctx.bad('A05.table.' + mod, 'no verifier is registered for %s' % mod, s.loc)
    for p, m, tr in (('SignatureVerifierProvider::set_verifier', 'verifiers', 'SignatureVerifier'), ('SignerProvider::set_signer', 'signers', 'Signer')):
        s = ctx.summ(ctx.fn(SP + p))
        if not s: continue
        ins = [e for e in s.events if e.kind == 'call' and e.path.endswith('HashMap::insert')]
        al = [e for e in calls(s, 'alg_id')]
        if not ins or not al: ctx.unk('A05.' + m, 'registration'); continue
        ctx.value('A05.%s.by' % m, ins[0].args[1], al[0].res, 'registered under its own identifier', s.loc)
        ctx.value('A05.%s.of' % m, al[0].args[0], s.args[1], 'registered under its own identifier', s.loc)
        ctx.value('A05.%s.value' % m, ins[0].args[2], s.args[1], 'what was given is registered', s.loc)
    for mod, ty, n, *_ in ALGS:
        s = ctx.summ(ctx.fn(SP + 'SignerProvider::set_' + mod))
        if not s: continue
        ins = [e for e in s.events if e.kind == 'call' and e.path.endswith('HashMap::insert')]
        if not ins: ctx.unk('A05.set_' + mod, 'registration'); continue
        v = ins[0].args[2]
        if v.op == 'agg': (ctx.ok if v.a[0] == AT + SP + '%s::%sSigner' % (mod, ty) else lambda k: ctx.bad(k, 'registers a %s' % v.a[0], s.loc))('A05.set_' + mod)
        else: ctx.unk('A05.set_' + mod, show(v)[:100])
