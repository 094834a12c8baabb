"""Equality of wire values (T27), fields with one legal value (T28), constructors and conversions (T29)."""
from rules import *
from mirval import *
import mirval as V, models
from wire import A, P, en, st, st_tuple, tup, payload, nonempty, somev, no_panic, EN, M, H
from wirelib import *
from suites import exists, ret, anyof

# types whose equality is that of one component, and why
BYFIELD = {'tls_core::suites::tls12::Tls12CipherSuite': 'common.suite', 'tls_core::suites::tls13::Tls13CipherSuite': 'common.suite'}
BYTESET = {}
class Eq:
    """the condition under which two values of a type are equal, component by component; `care` relates the two ways of comparing variants"""
    def __init__(self, ctx, eng): self.ctx = ctx; self.eng = eng; self.care = 1
    def ty(self, ty, a, b):
        while ty[0] == 'ref': ty = ty[2]
        if ty[0] == 'prim' and ty[1] not in ('str', 'f32', 'f64'): return cond(self.eng.binop('Eq', a, b, ty))
        if ty[0] == 'adt':
            adt = self.ctx.db.adts.get(ty[1])
            if adt and ty[1].startswith('tls_core::'): return self.adt(adt, a, b)
        return V.c_eq(a, b)
    def adt(self, adt, a, b):
        p = adt['path']
        if p in BYFIELD:
            c = self.field(adt, BYFIELD[p].split('.'))
            return self.ty(c, fld(a, BYFIELD[p]), fld(b, BYFIELD[p]))
        if adt['kind'] == 'enum':
            da, db_ = self.eng.discr(a, ['adt', p]), self.eng.discr(b, ['adt', p])
            de = cond(self.eng.binop('Eq', da, db_, ['prim', 'isize']))
            iffs = ANDS(*[NOT(XOR(c_is(a, p, v[0]), c_is(b, p, v[0]))) for v in adt['variants']])
            self.care = ANDS(self.care, NOT(XOR(de, iffs)))
            r = de
            for v in adt['variants']:
                if v[2]: r = AND(r, OR(NOT(c_is(a, p, v[0])), ANDS(*[self.ty(t, fld(a, '%s:%s' % (v[0], n)), fld(b, '%s:%s' % (v[0], n))) for n, t, _ in v[2]])))
            return r
        return ANDS(*[self.ty(t, fld(a, n), fld(b, n)) for n, t, _ in adt['variants'][0][2]])
    def field(self, adt, path):
        for n in path:
            t = next(f[1] for f in adt['variants'][0][2] if f[0] == n)
            adt = self.ctx.db.adts.get(t[1]) if t[0] == 'adt' else None
        return t
def session_eq(ctx, eng, a, b):
    """equal length, and equal in that many leading bytes"""
    la, lb = fld(a, 'len'), fld(b, 'len'); da, db_ = fld(a, 'data'), fld(b, 'data')
    le = cond(eng.binop('Eq', la, lb, ['prim', 'usize']))
    out = []
    for n in (la, lb):
        sa, sb = V.mkslice(da, I(0), n), V.mkslice(db_, I(0), n)
        for X in (T('range', I(0), n),):
            i = V.elem(X)
            out.append(AND(le, V.mk_all(X, cond(eng.binop('Eq', V.proj(da, ('i', i)), V.proj(db_, ('i', i)), ['prim', 'u8'])))))
        out.append(AND(le, V.c_eq(sa, sb)))
        Z = T('zip', sa, sb); z = V.elem(Z)
        out.append(AND(le, V.mk_all(Z, cond(eng.binop('Eq', z.a[0], z.a[1], ['prim', 'u8'])))))
    out.append(V.c_eq(V.mkslice(da, I(0), la), V.mkslice(db_, I(0), lb)))
    out.append(AND(le, V.c_eq(V.mkslice(da, I(0), la), V.mkslice(db_, I(0), lb))))
    return out

def T27(ctx):
    """Every equality of a library type, as a function of its two operands, against equality component by component."""
    n = 0
    for f in sorted(ctx.db.fns):
        m = re.match(r'<(tls_core::[\w:]+) as core::cmp::PartialEq>::eq$', f)
        if not m: continue
        t = m.group(1); adt = ctx.db.adts.get(t)
        if adt is None: continue
        n += 1; key = 'T27.' + t.split('::', 1)[1]
        fn = ctx.fn(f)
        s = ctx.summ(fn); a, b = s.args[:2]
        e = Eq(ctx, s.engine)
        if t.endswith('handshake::SessionID'): anyof(ctx, key, cond(s.ret), session_eq(ctx, s.engine, a, b), 'two session identifiers are equal iff their lengths and all their bytes are', s.loc)
        else:
            spec = e.adt(adt, a, b)
            ctx.same(key, cond(s.ret), spec, 'two values are equal iff all their components are', s.loc, care=e.care)
    if n < 30: ctx.bad('T27.coverage', 'only %d types with an equality found (rule fails closed)' % n, 'tls-core')
    ctx.notes.append('%d types' % n)

# ---------------------------------------------------------------- T28
def uncut(x):
    """(base, lo, hi) of a slice of the input"""
    return (x.a[0], x.a[1], x.a[2]) if x.op == 'slice' else (x, I(0), V.length(x))
def rdof(v, some=True):
    """the decoding whose result `v` is: ('rd'|'rdvec'|'rdv', ...)"""
    if v.op == 'fld' and v.a[0].op in ('rd', 'rdvec', 'rdv'): return v.a[0]
    return None
def unread(ctx, ov, ok, enc, extra=()):
    """[(condition, segments the encoder writes for the decoded value)]"""
    out = []
    for c, v in alts(ov):
        c = AND(c, ok)
        if AND(c, valid2(c)) == 0: continue
        with fits():
            e, s = encode(ctx, enc, v, extra)
        if e is None: out.append((c, None)); continue
        for c2, x in alts(e):
            k = AND(c, c2)
            k = le_lift(k, k)
            if AND(k, valid2(k)) == 0: continue
            segs = [(1, [])]
            for p in V.as_seq(x):
                al = alts(p.a[0]) if p.op == 's' else [(1, None)]
                segs = [(AND(d, dc), y + ([p] if t is None or len(al) == 1 else V.as_seq(t) if t.op == 'seq' else [T('s', t)])) for d, y in segs for dc, t in al]
                segs = [(d, y) for d, y in segs if AND(AND(k, d), valid2(AND(k, d))) != 0]
            for d, y in segs: out.append((AND(k, d), T('seq', *y)))
    return out
def le_lift(f, case):
    """within `case`: comparisons against a value chosen by cases, replaced by the comparison for the case at hand"""
    sub = {}
    for v in B.support(f):
        k = V.ATOMS[v][1]
        if k.op != 'le0': continue
        c, m = V.lin_of(k.a[0])
        for t, q in m.items():
            if t.op != 'choice': continue
            rest = {x: y for x, y in m.items() if x is not t}
            r = 0
            for cc, x in alts(t):
                if AND(case, cc) == 0: continue
                r = OR(r, AND(cc, V.c_le(V.add(V.lin_mk(c, rest), V.mul(I(q), x)), I(0))))
            sub[v] = r
            break
    return B.compose(f, sub) if sub else f
def eq_int(a, b): return AND(V.c_le(a, b), V.c_le(b, a))
def walk(buf, x, care):
    """compare the segments of x with the input from its start; ('ok', end, care) or (kind, message)"""
    ps = V.as_seq(x); pos = I(0); m = {}; pend = []; i = 0
    B_ = V.length(buf)
    def sub(t): return V.subst(t, dict(m, all=1), {}) if m else t
    def never(f):
        f = AND(care, f)
        return AND(f, valid2(f)) == 0
    def same(a, b): return a is b or never(NOT(eq_int(a, b)))
    while i < len(ps):
        p = ps[i]
        if p.op == 'e' and p.a[0].op == 'len' or p.op == 's' and p.a[0].op == 'be':
            w, n = (8, p.a[0]) if p.op == 'e' else (p.a[0].a[0], p.a[0].a[1])
            q = ps[i + 1] if i + 1 < len(ps) else None
            if q is not None and q.op == 's' and q.a[0].op == 'flat' and n is V.length(q.a[0]):
                r = rdof(q.a[0].a[0])
                el = q.a[0].a[1]
                if r is None or r.op != 'rdvec' or r.a[1] != w: return ('unk', 'list from ' + show(q.a[0].a[0])[:150])
                if not (el.op == 'seq' and len(el.a) == 1 and el.a[0].op == 's' and el.a[0].a[0] is T('enc', r.a[0], V.elem(q.a[0].a[0]))): return ('unk', 'list elements ' + show(el)[:150])
                base, lo, hi = uncut(r.a[2])
                if base is not buf or not same(lo, pos): return ('bad', 'the list of %s is written at offset %s but was read at %s' % (short(r.a[0]), show(pos)[:200], show(lo)[:200]))
                L = T('rdlen', r.a[0], r.a[2])
                care = AND(care, V.c_le(L, V.length(r.a[2])))
                m[n] = V.sub(L, I(w // 8))
                pos = V.add(pos, L); i += 2; continue
            pend.append((pos, w, n)); pos = V.add(pos, I(w // 8)); i += 1; continue
        if p.op == 'e' and p.a[0].op == 'int':
            # a constant number of several bytes
            for k in (8, 4, 3, 2):
                g = ps[i:i + k]
                if len(g) == k and all(y.op == 'e' and y.a[0].op == 'int' for y in g):
                    u = T('unbe', 8 * k, V.mkslice(buf, pos, V.add(pos, I(k))))
                    if never(NOT(V.c_eqint(u, int.from_bytes(bytes(y.a[0].a[0] for y in g), 'big'), 8 * k))): break
            else: k = 0
            if k: pos = V.add(pos, I(k)); i += k; continue
        if p.op == 'e':
            if not same(p.a[0], V.proj(buf, ('i', pos))): 
                return ('bad' if p.a[0].op == 'int' else 'unk', 'the byte %s is written where any byte is accepted' % show(p.a[0])[:100])
            pos = V.add(pos, I(1)); i += 1; continue
        t = p.a[0]
        if t.op == 'enc':
            ty, v = t.a
            r = rdof(v)
            if r is not None and r.op in ('rd', 'rdv') and r.a[0] == ty:
                X = r.a[-1]; base, lo, hi = uncut(X)
                if base is not buf: return ('unk', 'value read from ' + show(base)[:100])
                if not same(lo, pos): return ('bad', 'the %s is written at offset %s but was read at %s' % (short(ty), show(pos)[:200], show(lo)[:200]))
                L = T('rdlen', ty, *r.a[1:])
                care = AND(care, V.c_le(L, V.length(X)))
                m[V.length(t)] = L
                pos = V.add(pos, L); i += 1; continue
            # another value: it must be the one that was read at this place
            cand = []
            for q in V.ATOMS_of(care) if hasattr(V, 'ATOMS_of') else subterms_of(care):
                if q.op == 'rd' and q.a[0] == ty:
                    base, lo, hi = uncut(q.a[1])
                    if base is buf and same(lo, pos): cand.append(q)
            if not cand: return ('bad' if v.op == 'agg' else 'unk', 'a fixed %s (%s) is written where the decoder read nothing' % (short(ty), show(v)[:100]))
            r = cand[0]
            d = V.c_eq(v, fld(r, 'Some:0'))
            if not never(NOT(d)):
                f = AND(care, NOT(d)); f = AND(f, valid2(f))
                return ('bad' if v.op in ('agg', 'choice') else 'unk', 'the decoder accepts a %s that the encoder replaces by %s, when %s' % (short(ty), show(v)[:150], showc(f, lim=1)[:400]))
            L = T('rdlen', ty, r.a[1])
            care = AND(care, V.c_le(L, V.length(r.a[1])))
            m[V.length(t)] = L
            pos = V.add(pos, L); i += 1; continue
        base, lo, hi = uncut(t)
        if base is buf:
            if not same(lo, pos): return ('bad', 'bytes read at offset %s are written at %s' % (show(lo)[:200], show(pos)[:200]))
            pos = hi; i += 1; continue
        return ('unk', 'segment ' + show(t)[:200])
    for at_, w, n in pend:
        got = V.proj(buf, ('i', at_)) if w == 8 else T('unbe', w, V.mkslice(buf, at_, V.add(at_, I(w // 8))))
        n2 = sub(n)
        V.WIDTH.setdefault(got, w)
        # within the decoder's own reader the announced length is the remaining length
        if not same(n2, got):
            if os.environ.get('DBG'):
                f = AND(care, NOT(V.c_eq(n2, got))); print(showc(AND(f, valid2(f)), lim=2)); print(show(n2))
            return ('unk', 'length prefix %s' % show(n2)[:200])
    return ('ok', pos, care)
def subterms_of(f):
    out = set()
    for v in B.support(f):
        out |= subterms(V.ATOMS[v][1])
    return out
def T28(ctx):
    """For every decodable type: decode an arbitrary input symbolically, encode the result, compare with the bytes consumed."""
    n = 0
    for t, tn, enc, rd in codec_impls(ctx):
        nm = tn.replace(M, '').replace('handshake::', '').replace('alloc::vec::', '').replace('enums::', '').replace('base::', '').replace('tls_core::', '')
        if tn.startswith(H) and nm in ('ServerHelloPayload', 'HelloRetryRequest', 'OCSPCertificateStatusRequest'): continue
        runs = [('', rd, ())]
        if nm == 'HandshakeMessagePayload':
            rv = ctx.fn('msgs::handshake::HandshakeMessagePayload::read_version')
            if rv is None: continue
            f = ctx.db.fns[rv]
            pi = next(i for i in range(f['argc']) if re.search('ProtocolVersion', str(f['locals'][i + 1][0])))
            runs = [('@1.2', rv, [(pi, en('ProtocolVersion', 'TLSv1_2'))]), ('@1.3', rv, [(pi, en('ProtocolVersion', 'TLSv1_3'))])]
        for lab, r, extra in runs:
            buf = T('arg', 'buf'); key = 'T28.%s%s' % (nm, lab)
            n += 1
            d = decode(ctx, r, buf, extra)
            ok, ov = okcond(d), okval(d)
            if nm == 'Payload': ok, ov = 1, fld(d.ret, '') if False else (okval(d) or d.ret)
            if ov is None: ctx.unk(key, 'nothing decoded'); continue
            worst = None
            for c, x in unread(ctx, ov, ok, enc):
                if x is None: worst = worst or ('unk', 'what the encoder appends was not determined'); continue
                w = walk(buf, x, c)
                if w[0] == 'ok':
                    used = fld(d.after, 'offs') if d.after is not None else None
                    if used is None: w = ('unk', 'consumption not determined')
                    else:
                        z = ctx.tdiff(used, w[1], w[2])
                        w = None if z is None else ('unk' if z[0] == 'unk' else 'bad', 'not all consumed bytes are written back: consumed %s' % z[1][:400])
                if w and (worst is None or worst[0] == 'unk'): worst = (w[0], w[1])
            if worst is None: ctx.ok(key)
            elif worst[0] == 'bad': ctx.bad(key, 'decoding and encoding again changes the bytes: %s' % worst[1], d.loc)
            else: ctx.unk(key, worst[1])
    if n < 60: ctx.bad('T28.coverage', 'only %d decodable types found (rule fails closed)' % n, 'tls-core')
    ctx.notes.append('%d decoders' % n)

# ---------------------------------------------------------------- T29
B8, B16, B24 = [M + 'base::PayloadU%d' % w for w in (8, 16, 24)]
def conv(x): return T('call', 'core::convert::From::from', 'alloc::vec::Vec<u8,alloc::alloc::Global>', x)
def p8(x): return st_tuple(B8, x)
def p16(x): return st_tuple(B16, x)
def hst(name, **kw): return st(H + name, **kw)
def keyupdate(): return hst('HandshakeMessagePayload', typ=en('HandshakeType', 'KeyUpdate'), payload=agg(H + 'HandshakePayload', 'KeyUpdate', ['0'], [en('KeyUpdateRequest', 'UpdateNotRequested')]))
def protos(x): return V.mkseq([T('s', models.materialize(T('map', models.coll(x), p8(V.elem(x)))))])
EMPTY = T('seq')
MSG = M + 'message::Message'
CONSTRUCTORS = [
    ('msgs::base::Payload::new', lambda a: payload(conv(a)), 'a payload holds the given bytes'),
    ('msgs::base::Payload::empty', lambda: payload(EMPTY), 'an empty payload is empty'),
    ('msgs::base::PayloadU24::new', lambda a: st_tuple(B24, a), 'a payload holds the given bytes'),
    ('msgs::base::PayloadU16::new', lambda a: p16(a), 'a payload holds the given bytes'),
    ('msgs::base::PayloadU8::new', lambda a: p8(a), 'a payload holds the given bytes'),
    ('msgs::base::PayloadU16::empty', lambda: p16(EMPTY), 'an empty payload is empty'),
    ('msgs::base::PayloadU8::empty', lambda: p8(EMPTY), 'an empty payload is empty'),
    ('msgs::base::PayloadU8::into_inner', lambda a: fld(a, '0'), 'the bytes held'),
    ('<tls_core::msgs::handshake::Random as core::convert::From<[u8; 32]>>::from', lambda a: st_tuple(H + 'Random', a), 'a random holds the given bytes'),
    ('msgs::handshake::SessionID::len', lambda a: fld(a, 'len'), 'the length of a session identifier'),
    ('msgs::handshake::KeyShareEntry::new', lambda g, k: hst('KeyShareEntry', group=g, payload=p16(k)), 'a key share holds group and key'),
    ('<tls_core::msgs::handshake::KeyShareEntry as core::convert::From<tls_core::key::PublicKey>>::from', lambda k: hst('KeyShareEntry', group=fld(k, 'group'), payload=p16(fld(k, 'key'))), 'a key share holds the key\'s group and bytes'),
    ('msgs::handshake::PresharedKeyIdentity::new', lambda i, g: hst('PresharedKeyIdentity', identity=p16(i), obfuscated_ticket_age=g), 'a PSK identity holds identity and age'),
    ('msgs::handshake::PresharedKeyOffer::new', lambda i, b: hst('PresharedKeyOffer', identities=T('arr', i), binders=T('arr', p8(b))), 'a PSK offer holds one identity and its binder'),
    ('msgs::handshake::CertificateStatusRequest::build_ocsp', lambda: agg(H + 'CertificateStatusRequest', 'OCSP', ['0'], [hst('OCSPCertificateStatusRequest', responder_ids=EMPTY, extensions=p16(EMPTY))]), 'an OCSP request names no responders and no extensions'),
    ('msgs::handshake::ServerExtension::make_alpn', lambda x: agg(H + 'ServerExtension', 'Protocols', ['0'], [protos(x)]), 'the ALPN extension holds the given protocols'),
    ('msgs::handshake::ServerExtension::make_empty_renegotiation_info', lambda: agg(H + 'ServerExtension', 'RenegotiationInfo', ['0'], [p8(EMPTY)]), 'empty renegotiation info'),
    ('msgs::handshake::CertificateEntry::new', lambda c: hst('CertificateEntry', cert=c, exts=EMPTY), 'a certificate entry holds the certificate and no extensions'),
    ('msgs::handshake::CertificatePayloadTLS13::new', lambda e: hst('CertificatePayloadTLS13', context=p8(EMPTY), entries=e), 'a certificate message holds the entries'),
    ('msgs::handshake::DigitallySignedStruct::new', lambda s, g: hst('DigitallySignedStruct', scheme=s, sig=p16(g)), 'a signature holds scheme and bytes'),
    ('msgs::handshake::ServerECDHParams::new', lambda g, k: hst('ServerECDHParams', curve_params=hst('ECParameters', curve_type=en('ECCurveType', 'NamedCurve'), named_group=g), public=p8(k)), 'ECDH parameters hold group and key'),
    ('msgs::handshake::NewSessionTicketPayload::new', lambda l, t: hst('NewSessionTicketPayload', lifetime_hint=l, ticket=p16(t)), 'a ticket message holds lifetime and ticket'),
    ('msgs::handshake::NewSessionTicketPayloadTLS13::new', lambda l, g, n, t: hst('NewSessionTicketPayloadTLS13', lifetime=l, age_add=g, nonce=p8(n), ticket=p16(t), exts=EMPTY), 'a ticket message holds lifetime, age, nonce and ticket'),
    ('msgs::handshake::CertificateStatus::new', lambda o: hst('CertificateStatus', ocsp_response=st_tuple(B24, o)), 'a certificate status holds the response'),
    ('msgs::handshake::CertificateStatus::into_inner', lambda a: fld(a, 'ocsp_response.0'), 'the response held'),
    ('msgs::handshake::HandshakeMessagePayload::build_key_update_notify', lambda: keyupdate(), 'a key update that requests no update in return'),
    ('msgs::handshake::HandshakeMessagePayload::build_handshake_hash', lambda h: hst('HandshakeMessagePayload', typ=en('HandshakeType', 'MessageHash'), payload=agg(H + 'HandshakePayload', 'MessageHash', ['0'], [payload(h)])), 'a message hash holds the hash'),
    ('msgs::message::Message::build_alert', lambda l, d: st(MSG, version=en('ProtocolVersion', 'TLSv1_2'), payload=agg(M + 'message::MessagePayload', 'Alert', ['0'], [st(M + 'alert::AlertMessagePayload', level=l, description=d)])), 'an alert of the given level and description'),
    ('msgs::message::Message::build_key_update_notify', lambda: st(MSG, version=en('ProtocolVersion', 'TLSv1_3'), payload=agg(M + 'message::MessagePayload', 'Handshake', ['0'], [keyupdate()])), 'a TLS 1.3 key update that requests no update in return'),
    ('verify::WebPkiVerifier::root_store', lambda a: fld(a, 'roots'), 'the verifier\'s own roots'),
    ('<alloc::vec::Vec<tls_core::msgs::enums::ECPointFormat> as tls_core::msgs::handshake::SupportedPointFormats>::supported', lambda: T('arr', en('ECPointFormat', 'Uncompressed')), 'only uncompressed points are supported'),
    ('<alloc::vec::Vec<tls_core::msgs::base::PayloadU8> as tls_core::msgs::handshake::ConvertProtocolNameList>::from_slices', protos, 'the list holds the given names in order'),
]
def T29(ctx):
    """Each constructor, accessor and in-place editor of message structures, as a function of its arguments."""
    for name, spec, msg in CONSTRUCTORS:
        f = ctx.fn(name) if not name.startswith('<') else (name if name in ctx.db.fns else None)
        key = 'T29.' + short(name)
        if f is None:
            if name.startswith('<'): ctx.unk(key, 'no longer present')
            continue
        s = ctx.summ(f)
        if len(s.args) != spec.__code__.co_argcount: ctx.unk(key, 'other parameters'); continue
        ctx.value(key, s.ret, spec(*s.args), msg, s.loc)
    f = ctx.fn('msgs::handshake::SessionID::is_empty')
    if f:
        s = ctx.summ(f); ctx.same('T29.SessionID::is_empty', cond(s.ret), V.c_eq(fld(s.args[0], 'len'), I(0)), 'a session identifier is empty iff its length is zero', s.loc)
    f = ctx.fn('msgs::handshake::SessionID::empty')
    if f:
        s = ctx.summ(f); ctx.same('T29.SessionID::empty', V.c_eqint(fld(s.ret, 'len'), 0, 64), 1, 'the empty session identifier has length zero', s.loc)
    f = ctx.fn('msgs::handshake::Random::write_slice')
    if f:
        s = ctx.summ(f); ctx.value('T29.Random::write_slice', V.unseq(s.final(s.args[1])), fld(s.args[0], '0'), 'all bytes of the random are written', s.loc)
    f = ctx.fn('msgs::handshake::ClientHelloPayload::set_psk_binder')
    if f:
        s = ctx.summ(f); a, b = s.args; L = fld(a, 'extensions'); n = V.length(L); e = V.proj(L, ('i', V.sub(n, I(1))))
        c = AND(NOT(V.c_eq(n, I(0))), c_is(e, H + 'ClientExtension', 'PresharedKey'))
        new = V.update(a, [('f', None, 'extensions'), ('i', V.sub(n, I(1))), ('f', 'PresharedKey', '0'), ('f', None, 'binders'), ('i', I(0))], p8(conv(b)))
        ctx.value('T29.set_psk_binder', s.final(a), V.choice([(c, new), (NOT(c), a)]), 'the first binder of the pre-shared key extension, if that is last, is replaced and nothing else', s.loc,
                  care=OR(NOT(c), NOT(V.c_eq(V.length(fld(e, 'PresharedKey:0.binders')), I(0)))))
    f = ctx.fn('msgs::message::Message::is_handshake_type')
    if f:
        s = ctx.summ(f); a, t = s.args
        e = Eq(ctx, s.engine); MP = M + 'message::MessagePayload'
        h = c_is(fld(a, 'payload'), MP, 'Handshake')
        q = e.ty(['adt', EN + 'HandshakeType', []], fld(a, 'payload.Handshake:0.typ'), t)
        ctx.same('T29.is_handshake_type', cond(s.ret), AND(h, q), 'a message is of a handshake type iff it is a handshake message of that type', s.loc, care=e.care)
    for ty, w in (('ServerExtension', 'ServerExtension'), ('CertificateExtension', 'CertificateExtension')):
        f = ctx.fn('msgs::handshake::%s::make_sct' % ty)
        if f:
            x = T('arg', 'sctl')
            s = ctx.summ(f, args=[x], hook=dec_hook(f))
            v = s.ret
            ok = c_is(v, H + ty, 'SignedCertificateTimestamp') if v.op == 'agg' else 0
            X = fld(v, 'SignedCertificateTimestamp:0')
            ctx.value('T29.%s::make_sct' % ty, v, agg(H + ty, 'SignedCertificateTimestamp', ['0'], [fld(T('rd', 'alloc::vec::Vec<%s>' % B16, x), 'Some:0')]), 'the extension holds the list the bytes encode', s.loc)
    f = ctx.fn('msgs::codec::Codec::get_encoding')
    if f:
        s = ctx.summ(f)
        ctx.value('T29.get_encoding', s.ret, T('eff', T('call', CODEC + '::encode', 'Self', s.args[0], EMPTY), 0), 'the encoding of the value and nothing else', s.loc)
    f = ctx.fn('msgs::codec::Codec::read_bytes')
    if f:
        s = ctx.summ(f)
        ctx.value('T29.read_bytes', s.ret, T('call', CODEC + '::read', 'Self', reader_of(s.args[0])), 'decoding starts at the first byte', s.loc)
