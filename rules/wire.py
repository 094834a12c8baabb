"""T07 T08 T09 T11 T16 T17: the wire grammar."""
from rules import *
from mirval import *
import mirval as V, models
from wirelib import *

M = 'tls_core::msgs::'
EN = M + 'enums::'
def A(name): return T('arg', 'v', name)
def P(variant, i=0): return T('arg', 'payload', variant, str(i))
def en(ty, v, *p): return agg(EN + ty, v, [str(i) for i in range(len(p))], list(p))
def nonempty(x): return NOT(c_eq(length(x), I(0)))
def st(path, **kw): return agg(path, path.split('::')[-1], list(kw), list(kw.values()))
def tup(*x): return T('tup', *x)
def payload(b): return st_tuple(M + 'base::Payload', b)
def st_tuple(path, *xs): return agg(path, path.split('::')[-1], [str(i) for i in range(len(xs))], list(xs))

class Case:
    """one shape of value: (label, value, buffer follows?, acceptance condition, narrowed terms, expected decoded value)"""
    def __init__(self, label, v, tail=True, dom=None, fit=(), want=None, care=1):
        self.label, self.v, self.tail, self.dom, self.fit, self.want, self.care = label, v, tail, dom, fit, want, care

REST = ('CertificateStatusRequest', 'ServerKeyExchangePayload', 'ClientHelloPayload', 'ServerHelloPayload', 'Payload')
def cases(ctx, t, tn):
    """the value shapes of a type, with the decoder's specified acceptance condition"""
    short_ = tn.replace(M, '').replace('handshake::', '')
    a = ctx.db.adts.get(t[1]) if t[0] == 'adt' else None
    v = A(tn)
    unk = lambda adt: agg(H + 'UnknownExtension', 'UnknownExtension', ['typ', 'payload'], [en('ExtensionType', 'Unknown', T('arg', 'x')), payload(T('arg', 'rest'))])
    if short_ in ('OCSPCertificateStatusRequest', 'ServerHelloPayload', 'HelloRetryRequest'): return []     # inside their containers
    if short_ == 'SessionID':
        ln = fld(v, 'len')
        return [Case('', v, fit=(ln,), dom=V.c_le(ln, I(32)),
                     want=lambda ok: [('len', ln, ['len']), ('data[..len]', V.mkslice(fld(v, 'data'), I(0), ln), ['data'])])]
    if short_ == 'base::Payload': return [Case('', v, tail=False)]
    if short_ == 'codec::u24': return [Case('', v, fit=(fld(v, '0'),))]
    if short_ == 'ccs::ChangeCipherSpecPayload': return [Case('', v, tail=False)]
    if short_ == 'ECParameters': return [Case('', v, dom=discr_is(fld(v, 'curve_type'), EN + 'ECCurveType', 'NamedCurve'))]
    if short_ == 'ClientHelloPayload': return [Case('', v, tail=False, dom=nonempty(fld(v, 'extensions')))]
    if short_ == 'CertificateRequestPayload': return [Case('', v, dom=nonempty(fld(v, 'sigschemes')))]
    if short_.startswith('alloc::vec::Vec<tls_core::key::Certificate>'):
        return [Case('', v, dom=V.c_le(length(flatenc('tls_core::key::Certificate', v)), I(0x10000)))]
    if short_ == 'CertificatePayloadTLS13':
        return [Case('', v, dom=V.c_le(length(flatenc(H + 'CertificateEntry', fld(v, 'entries'))), I(0x10000)))]
    if short_ == 'ServerName':
        raw = T('arg', 'host'); dn = T('arg', 'dnsname')
        hn = st(H + 'ServerName', typ=en('ServerNameType', 'HostName'), payload=agg(H + 'ServerNamePayload', 'HostName', ['0'], [tup(st_tuple(M + 'base::PayloadU16', raw), dn)]))
        un = st(H + 'ServerName', typ=en('ServerNameType', 'Unknown', T('arg', 'x')), payload=agg(H + 'ServerNamePayload', 'Unknown', ['0'], [payload(T('arg', 'rest'))]))
        return [Case('HostName', hn, dom='some', want=lambda ok: [('raw', raw, ['payload', 'HostName:0', '0', '0']), ('typ', fld(hn, 'typ'), ['typ'])]),
                Case('Unknown', un, tail=False)]
    if short_ == 'CertificateStatusRequest':
        return [Case('OCSP', agg(t[1], 'OCSP', ['0'], [P('OCSP')])),
                Case('Unknown', agg(t[1], 'Unknown', ['0'], [tup(en('CertificateStatusType', 'Unknown', T('arg', 'x')), payload(T('arg', 'rest')))]), tail=False)]
    if short_ == 'ServerKeyExchangePayload':
        return [Case('ECDHE', agg(t[1], 'ECDHE', ['0'], [P('ECDHE')]), tail=False,
                     want=lambda ok: [('undissected bytes', agg(t[1], 'Unknown', ['0'], [payload(T('seq', T('s', T('enc', H + 'ECDHEServerKeyExchange', P('ECDHE')))))]), [])]),
                Case('Unknown', agg(t[1], 'Unknown', ['0'], [P('Unknown')]), tail=False)]
    if short_ == 'HandshakeMessagePayload': return hs_cases(ctx, t)
    if a and a['kind'] == 'enum':
        out = []
        for name, d, fs in a['variants']:
            if tn.startswith(EN) and name == 'Unknown':
                out.append(Case(name, agg(t[1], name, ['0'], [P(name)]), care='unknown')); continue
            if name == 'Unknown' and len(fs) == 1:
                out.append(Case(name, agg(t[1], name, ['0'], [unk(t[1])]))); continue
            val = agg(t[1], name, [f[0] for f in fs], [P(name, f[0]) for f in fs])
            if short_ == 'ClientExtension' and name == 'SessionTicket':
                C = H + 'ClientSessionTicket'
                out.append(Case('SessionTicket(Request)', agg(t[1], name, ['0'], [agg(C, 'Request', [], [])])))
                out.append(Case('SessionTicket(Offer)', agg(t[1], name, ['0'], [agg(C, 'Offer', ['0'], [payload(T('arg', 'ticket'))])]), care=nonempty(T('arg', 'ticket')))); continue
            if short_ == 'CertReqExtension' and name == 'SignatureAlgorithms':
                out.append(Case(name, val, dom=nonempty(P(name)))); continue
            if short_.endswith('Extension') and fs and tyname(fs[0][1]) == H + 'CertificateStatusRequest':
                # the only decodable shapes of the nested structure
                for c in cases(ctx, fs[0][1], H + 'CertificateStatusRequest'):
                    out.append(Case(name + '(' + c.label + ')', agg(t[1], name, ['0'], [c.v])))
                continue
            out.append(Case(name, val))
        return out
    return [Case('', v)]
HRR_RANDOM = bytes.fromhex('cf21ad74e59a6111be1d8c021e65b891c2a211167abb8c5e079e09e2c8a8339c')
def bytes_arr(b): return T('arr', *[I(x) for x in b])
HT, HP = EN + 'HandshakeType', H + 'HandshakePayload'
V12, V13 = en('ProtocolVersion', 'TLSv1_2'), en('ProtocolVersion', 'TLSv1_3')
# handshake type on the wire -> payload variant per version (None: never accepted from the wire)
HS = {'HelloRequest': 'HelloRequest', 'ClientHello': 'ClientHello', 'ServerHello': 'ServerHello', 'Certificate': {'12': 'Certificate', '13': 'CertificateTLS13'},
      'ServerKeyExchange': 'ServerKeyExchange', 'CertificateRequest': {'12': 'CertificateRequest', '13': 'CertificateRequestTLS13'}, 'ServerHelloDone': 'ServerHelloDone',
      'CertificateVerify': 'CertificateVerify', 'ClientKeyExchange': 'ClientKeyExchange', 'NewSessionTicket': {'12': 'NewSessionTicket', '13': 'NewSessionTicketTLS13'},
      'EncryptedExtensions': 'EncryptedExtensions', 'KeyUpdate': 'KeyUpdate', 'EndOfEarlyData': 'EndOfEarlyData', 'Finished': 'Finished',
      'CertificateStatus': 'CertificateStatus', 'MessageHash': None, 'HelloRetryRequest': None}
def hsmsg(typ, pay): return st(H + 'HandshakeMessagePayload', typ=typ, payload=pay)
def hs_cases(ctx, t):
    """(case, extra decoder arguments) for every handshake message"""
    out = []
    for name, d, fs in ctx.db.adts[HP]['variants']:
        typs = [(k, v) for k, w in HS.items() for k, v in ([(k, w)] if not isinstance(w, dict) else [(k, w['12']), (k, w['13'])]) if v == name]
        pay = agg(HP, name, [f[0] for f in fs], [P(name, f[0]) for f in fs])
        versions = [('1.2', V12), ('1.3', V13)]
        if name in ('Certificate', 'CertificateRequest', 'NewSessionTicket'): versions = versions[:1]
        if name.endswith('TLS13'): versions = versions[1:]
        typ = en('HandshakeType', typs[0][0]) if typs else None
        dom = None; care = 1; want = None
        if name == 'Unknown': typ = en('HandshakeType', 'Unknown', T('arg', 'x'))
        elif name == 'HelloRetryRequest': typ = en('HandshakeType', 'HelloRetryRequest')
        elif name == 'MessageHash': typ = en('HandshakeType', 'MessageHash'); dom = 0
        elif name == 'ServerHello': care = NOT(c_eq(fld(P(name), 'random.0'), bytes_arr(HRR_RANDOM)))
        elif name == 'ServerKeyExchange': pay = agg(HP, name, ['0'], [agg(H + 'ServerKeyExchangePayload', 'Unknown', ['0'], [payload(T('arg', 'rest'))])])
        if typ is None: ctx.bad('anchor:HandshakePayload::' + name, 'handshake payload variant without a specified wire type', HP); continue
        for vn, vv in versions:
            c = Case('%s@%s' % (name, vn), hsmsg(typ, pay), dom=dom, care=care, want=want)
            c.vers = vv
            out.append(c)
    return out
def flatenc(ty, X): return T('flat', X, T('seq', T('s', T('enc', ty, V.elem(X)))))

def run_case(ctx, key, tn, enc, rd, c, dargs=()):
    loc = ctx.loc(rd)
    with fits(*c.fit):
        e, s = encode(ctx, enc, c.v)
        if e is None:
            ctx.unk(key, 'what the encoder appends was not determined'); return None
        for cc, x in alts(e):
            care = AND(cc, c.care) if c.care != 'unknown' else cc
            if AND(care, valid2(care)) == 0: continue
            buf = V.mkseq(parts(x) + ([T('s', T('arg', 'tail'))] if c.tail else []))
            d = decode(ctx, rd, buf, dargs)
            ok, ov = okcond(d), okval(d)
            if ov is None or AND(AND(ok, care), valid2(AND(ok, care))) == 0:
                want = AND(care, c.dom) if isinstance(c.dom, int) else care
                if AND(want, valid2(want)) == 0: ctx.ok(key + '/rejected'); continue
                ctx.bad(key, 'the decoder rejects every value of this shape that the encoder produces', loc); continue
            if c.care == 'unknown': care = AND(care, ORS(*[k for k, y in alts(ov) if y.op == 'agg' and y.a[1] == c.v.a[1]]))
            dom = 1 if c.dom is None else c.dom
            if dom == 'some': pass
            elif c.care == 'unknown': ctx.require(key + '/accepted', care, ok, 'decoding what was encoded fails', loc)
            else: ctx.same(key + '/accepted', AND(ok, care), AND(dom, care), 'set of encoded values the decoder accepts', loc)
            if isinstance(dom, int) and dom != 1:
                x2 = under(x, AND(care, dom))
                if x2 is not x:
                    # narrowing that only matters outside the domain is gone from the encoding: read it back in that form
                    x = x2; care = AND(care, dom)
                    d = decode(ctx, rd, V.mkseq(parts(x) + ([T('s', T('arg', 'tail'))] if c.tail else [])), dargs)
                    ok, ov = okcond(d), okval(d)
                    if ov is None: continue
            care = AND(care, ok)
            if c.want is None: ctx.value(key + '/value', ov, c.v, 'decode(encode(v)) = v', loc, care=care)
            else:
                for nm, w, path in c.want(care): ctx.value(key + '/' + nm, at(ov, path, w), w, 'decode(encode(v)) = v', loc, care=care)
            used = fld(d.after, 'offs') if d.after is not None else None
            ctx.value(key + '/consumed', used, V.length(x), 'the decoder consumes exactly the encoding', loc, care=care)
def at(v, path, w):
    if v.op == 'choice': return V.choice([(c, at(x, path, w)) for c, x in alts(v)])
    for p in path: v = fld(v, p)
    if w.op == 'slice' or (path and path[-1] == 'data'): v = V.mkslice(v, I(0), w.a[2]) if w.op == 'slice' else v
    return v

def argpos(f, rx): return next(i for i in range(f['argc']) if re.search(rx, str(f['locals'][i + 1][0])))
def T08(ctx):
    n = 0
    for t, tn, enc, rd in codec_impls(ctx):
        nm = tn.replace(M, '').replace('handshake::', '').replace('alloc::vec::', '').replace('enums::', '').replace('base::', '').replace('tls_core::', '')
        for c in cases(ctx, t, tn):
            n += 1
            key = 'roundtrip/%s%s' % (nm, '/' + c.label if c.label else '')
            if hasattr(c, 'vers'):
                rv = ctx.fn('msgs::handshake::HandshakeMessagePayload::read_version')
                if rv is None: continue
                f = ctx.db.fns[rv]
                run_case(ctx, key, tn, enc, rv, c, [(argpos(f, 'ProtocolVersion'), c.vers)])
            else: run_case(ctx, key, tn, enc, rd, c)
    ctx.notes.append('%d value shapes of %d encodable types composed symbolically' % (n, len(codec_impls(ctx))))

# ---------------------------------------------------------------- T07
import linear
def reader_facts(t):
    """what is known about reader positions: a nested decoder consumes at most what is left; offs never exceeds the buffer (checked as an
    invariant of Reader's own methods)"""
    out = []
    if t.op == 'rdlen':
        rem = t.a[-1]
        for x in ([rem] if rem.op != 'choice' else []): out.append(lin_le(t, length(x)))
    if t.op == 'fld' and t.a[-1] == 'offs': out.append(lin_le(t, length(fld(t.a[0], 'buf'))))
    return out
def lin_le(a, b):
    c, m = V.lin_of(V.sub(a, b))
    return (c, m)
def known_vocab(cb):
    """no atom of the cube mentions an operation the analysis does not interpret"""
    for v in cb:
        t = ATOMS[v][1]
        if V.contains(t, lambda x: x.op not in TRANSPARENT and x.op not in ('rd', 'rdlen', 'rdvec', 'lv', 'le0', 'eq', 'success', 'rdopaque', 'call', 'enc', 'flat', 'ovf', 'eff')): return False
    return True
def no_panic(ctx, key, s, facts=None, only=None):
    n = 0
    for e in s.events:
        if e.kind != 'panic': continue
        n += 1
        where = '%s:%s' % (norm(e.fn), e.ln if hasattr(e, 'ln') else '')
        k = '%s/%s@%s' % (key, e.path.split('(')[0], norm(e.fn).split('::')[-1] if '<' not in e.fn else norm(e.fn)[-60:])
        cb = linear.feasible(e.cond, facts or reader_facts)
        if cb is None: ctx.ok(k); continue
        msg = 'panics (%s %s) when %s' % (e.path, ', '.join(show(a)[:120] for a in e.args[:3]), linear.show_cube(cb)[:500])
        if known_vocab(cb): ctx.bad(k, msg, where)
        else: ctx.unk(k, msg)
    ctx.ok(key + '/analysed')
    return n
def read_any(ctx, fid, extra=()):
    """summary of a decoder on an arbitrary buffer"""
    return decode(ctx, fid, T('arg', 'buf'), extra)
def T07(ctx):
    n = 0
    done = set()
    def run(key, fid, s=None):
        nonlocal n
        if fid is None or fid in done: return
        done.add(fid)
        n += no_panic(ctx, key, s if s is not None else read_any(ctx, fid))
    # Reader's own methods keep offs <= buf.len() for every argument
    for m in ('init', 'rest', 'take', 'any_left', 'left', 'used', 'sub'):
        f = ctx.fn('msgs::codec::Reader::<\'_>::' + m) if ctx.db.find('tls_core::msgs::codec::Reader::<\'_>::' + m) else ctx.fn('msgs::codec::Reader::' + m)
        if f is None: continue
        s = ctx.summ(f)
        run('reader/' + m, f, s)
        if m == 'init': continue
        fin = s.final(s.args[0])
        for c, x in alts(fin):
            buf, offs = fld(x, 'buf'), fld(x, 'offs')
            cb = linear.feasible(AND(c, NOT(c_le(offs, length(buf)))), reader_facts)
            k = 'reader/%s/invariant' % m
            if cb is None: ctx.ok(k)
            else: ctx.bad(k, 'leaves the reader past the end of its buffer when %s' % linear.show_cube(cb)[:400], s.loc)
    # nobody else assembles a Reader with a position of its own
    for fid, fn in ctx.db.fns.items():
        if norm(fid).startswith(READER): continue
        for b in fn['blocks']:
            for x in b['s']:
                if x[0] == '=' and x[2][0] == 'agg' and READER in str(x[2][1]):
                    s = ctx.summ(fid) ; ctx.unk('reader/built-in/' + norm(fid), 'a Reader is assembled outside its own methods')
    for t, tn, enc, rd in codec_impls(ctx): run('read/' + tn.replace('tls_core::msgs::', ''), rd)
    for nm in ('read_vec_u8', 'read_vec_u16', 'read_vec_u24_limited'): run('read/' + nm, ctx.fn('msgs::codec::' + nm))
    for nm in ('decode_u16', 'decode_u32', 'decode_u64', 'u24::decode'): f = ctx.fn('msgs::codec::' + nm); run('read/' + nm, f, ctx.summ(f))
    run('read/HandshakeMessagePayload::read_version', ctx.fn('msgs::handshake::HandshakeMessagePayload::read_version'))
    run('read/OpaqueMessage', ctx.fn('msgs::message::OpaqueMessage::read'))
    for nm in ('msgs::message::MessagePayload::new', 'msgs::handshake::ServerKeyExchangePayload::unwrap_given_kxa'):
        f = ctx.fn(nm)
        if f: run('read/' + nm.split('::', 1)[1], f, ctx.summ(f, hook=dec_hook(f)))
    f = ctx.fn('suites::tls12::decode_ecdh_params')
    if f: run('read/decode_ecdh_params', f, ctx.summ(f, hook=dec_hook(f)))
    # accessors applied to what was decoded
    for fid in sorted(ctx.db.fns):
        m = re.match(r'tls_core::msgs::handshake::(\w+)::(get_\w+|has_\w+|find_\w+|unwrap_\w+|convert|as_single_slice|to_slices|\w*_offered|ems_support_\w+|check_psk\w*)$', norm(fid))
        if m and not re.search(r'encoding', m.group(2)) and fid not in done: run('access/%s::%s' % (m.group(1), m.group(2)), fid, ctx.summ(fid, stop=r'Codec::(encode|read)$'))
    ctx.notes.append('%d potential panic sites (arithmetic, indexing, slicing, unwrap) in %d decoding functions decided' % (n, len(done)))

# ---------------------------------------------------------------- T09
DELIMITED = ('ClientExtension', 'ServerExtension', 'HelloRetryExtension', 'CertificateExtension', 'CertReqExtension', 'NewSessionTicketExtension', 'HandshakeMessagePayload')
def split_container(x):
    """[header parts], width, body parts of  header || be(w, len(body)) || body"""
    ps = parts(x)
    for i, p in enumerate(ps):
        w = n = None; k = i + 1
        if p.op == 's' and p.a[0].op == 'be': w, n = p.a[0].a
        elif p.op == 's' and p.a[0].op in ('bytes', 'arr') and all(is_int(V.proj(p.a[0], ('i', I(j)))) for j in range(length(p.a[0]).a[0])) and i > 0: w = 8 * length(p.a[0]).a[0]; n = I(int.from_bytes(bytes(V.proj(p.a[0], ('i', I(j))).a[0] for j in range(w // 8)), 'big'))
        elif p.op == 'e' and is_int(p.a[0]) and i > 0:
            for w8 in (2, 3):
                q = ps[i:i + w8]
                if len(q) == w8 and all(y.op == 'e' and is_int(y.a[0]) for y in q):
                    n = I(int.from_bytes(bytes(y.a[0].a[0] for y in q), 'big')); w = 8 * w8; k = i + w8
                    if n is length(V.mkseq(ps[k:])): break
                    n = None
        if n is not None and n is length(V.mkseq(ps[k:])): return ps[:i], w, ps[k:]
    return None
def T09(ctx):
    J = T('arg', 'junk')
    jn = nonempty(J)
    n = 0
    for t, tn, enc, rd in codec_impls(ctx):
        nm = tn.replace(H, '')
        if nm not in DELIMITED: continue
        rv = rd
        if nm == 'HandshakeMessagePayload':
            rv = ctx.fn('msgs::handshake::HandshakeMessagePayload::read_version')
            if rv is None: continue
        f = ctx.db.fns[rv]
        for c in cases(ctx, t, tn):
            if c.dom == 0: continue
            key = 'trailing/%s/%s' % (nm, c.label)
            extra = [(argpos(f, 'ProtocolVersion'), c.vers)] if hasattr(c, 'vers') else ()
            with fits(*c.fit):
                e, s = encode(ctx, enc, c.v)
                if e is None: ctx.unk(key, 'encoding not determined'); continue
                for cc, x in alts(e):
                    sp = split_container(x)
                    if sp is None: ctx.unk(key, 'no length-delimited body found in the encoding'); continue
                    hd, w, body = sp
                    body = body + [T('s', J)]
                    buf = V.mkseq(hd + [T('s', V.mk_be(w, length(V.mkseq(body))))] + body + [T('s', T('arg', 'tail'))])
                    d = decode(ctx, rv, buf, extra)
                    care = ANDS(cc, c.care, jn, c.dom if isinstance(c.dom, int) else 1)
                    bad = 0
                    for a, y in alts(okval(d) or T('never')):
                        a = AND(a, okcond(d))
                        if V.contains(y, lambda z: z is J): continue        # the value accounts for the extra bytes
                        bad = OR(bad, AND(a, care))
                    n += 1
                    ctx.require(key, bad, 0, 'bytes inside the structure that its value does not account for are accepted', ctx.loc(rv))
        # with an arbitrary body: whatever is accepted consumed the announced length exactly
        B_ = T('arg', 'body')
        if nm == 'HandshakeMessagePayload': hdr, w, hty = [T('s', T('enc', HT, T('arg', 'typ')))], 24, HT
        else: hdr, w, hty = [T('s', T('enc', EN + 'ExtensionType', T('arg', 'typ')))], 16, EN + 'ExtensionType'
        with fits():
            buf = V.mkseq(hdr + [T('s', V.mk_be(w, length(B_))), T('s', B_), T('s', T('arg', 'tail'))])
            for vn, vv in ([('1.2', V12), ('1.3', V13)] if rv != rd else [('', None)]):
                d = decode(ctx, rv, buf, [(argpos(f, 'ProtocolVersion'), vv)] if vv is not None else ())
                ctx.value('exact/%s%s' % (nm, vn), fld(d.after, 'offs') if d.after is not None else None, V.add(length(hdr[0].a[0]), V.add(I(w // 8), length(B_))),
                          'an accepted structure occupies exactly its announced length', ctx.loc(rv), care=okcond(d))
    # structures that own the rest of their container
    chp = ctx.method('msgs::codec::Codec', 'msgs::handshake::ClientHelloPayload', 'read')
    che = ctx.method('msgs::codec::Codec', 'msgs::handshake::ClientHelloPayload', 'encode')
    if chp and che:
        v = A('hello')
        with fits():
            e, s = encode(ctx, che, v)
            for cc, x in alts(e):
                d = decode(ctx, chp, V.mkseq(parts(x) + [T('s', J)]))
                # when extensions are present nothing may follow them
                ctx.require('trailing/ClientHelloPayload', ANDS(okcond(d), cc, jn, nonempty(fld(v, 'extensions'))), 0, 'bytes after the extensions of a client hello are accepted', s.loc)
    exact_records(ctx)
    exact_params(ctx)

CT = EN + 'ContentType'
ALERT = M + 'alert::AlertMessagePayload'
REC_INLINE = INLINE | {ALERT, M + 'ccs::ChangeCipherSpecPayload'}
def record_payload(ctx, typ, vers, pay):
    """summary of MessagePayload::new for one content type"""
    f = ctx.fn('msgs::message::MessagePayload::new')
    if f is None: return None
    fn = ctx.db.fns[f]
    args = ctx.engine().symargs(fn)
    for i, v in ((argpos(fn, 'ContentType'), typ), (argpos(fn, 'ProtocolVersion'), vers), (argpos(fn, 'base::Payload'), payload(pay))):
        args[i] = v
    return ctx.summ(f, args=args, hook=dec_hook(f, REC_INLINE))
def exact_records(ctx):
    B_, vv = T('arg', 'body'), T('arg', 'vers')
    n = length(B_)
    first = V.proj(B_, ('i', I(0)))
    V.WIDTH.setdefault(first, 8)
    hs = H + 'HandshakeMessagePayload'
    AL, AD = EN + 'AlertLevel', EN + 'AlertDescription'
    lvl, ll = T('rd', AL, B_), T('rdlen', AL, B_)
    rest = V.mkslice(B_, ll, n)
    dsc, dl = T('rd', AD, rest), T('rdlen', AD, rest)
    rd, rl = T('rd', hs, vv, B_), T('rdlen', hs, vv, B_)
    some = lambda x: c_is(x, OPTION, 'Some')
    spec = {'ApplicationData': 1,
            'Alert': ANDS(some(lvl), some(dsc), c_le(n, V.add(ll, dl))),
            'Handshake': AND(some(rd), c_le(n, rl)),
            'ChangeCipherSpec': AND(c_eq(n, I(1)), c_eq(first, I(1))),
            'Heartbeat': 0, 'Unknown': 0}
    want = {'ApplicationData': payload(B_), 'Alert': st(ALERT, level=somev(lvl), description=somev(dsc)), 'Handshake': somev(rd),
            'ChangeCipherSpec': None}
    for name, tv in enum_values(ctx, CT, None):
        s = record_payload(ctx, tv, vv, B_)
        if s is None: return
        key = 'record/' + name
        if name not in spec: ctx.bad('anchor:' + key, 'content type without a specified payload', CT); continue
        ok = okcond(s)
        ctx.same(key + '/accepted', ok, spec[name], 'payloads accepted for this content type', s.loc)
        for c, y in alts(okval(s) or T('never')):
            if y.op != 'agg': continue
            if AND(c, valid2(c)) == 0: continue
            if y.a[1] != name: ctx.bad(key + '/variant', 'interpreted as %s' % y.a[1], s.loc)
            elif want[name] is not None: ctx.value(key + '/value', y.a[3], want[name], 'the payload is the decoded body', s.loc, care=AND(c, ok))
            else: ctx.ok(key + '/value')
def exact_params(ctx):
    some = lambda x: c_is(x, OPTION, 'Some')
    f = ctx.fn('suites::tls12::decode_ecdh_params')
    if f:
        s = ctx.summ(f, hook=dec_hook(f))
        x = s.args[0]
        tys = {t.a[0] for c, r in alts(s.ret) for t in subterms(r) if t.op == 'rd'}
        ty = next(iter(tys)) if len(tys) == 1 else 'T'
        rd, rl = T('rd', ty, x), T('rdlen', ty, x)
        ctx.same('params/decode_ecdh_params/accepted', okcond(s), AND(some(rd), c_le(length(x), rl)), 'key-exchange parameters are accepted iff they decode and nothing follows', s.loc)
        ctx.value('params/decode_ecdh_params/value', okval(s), somev(rd), 'the parameters returned are the decoded ones', s.loc, care=okcond(s))
    f = ctx.fn('msgs::handshake::ServerKeyExchangePayload::unwrap_given_kxa')
    if f:
        E = H + 'ECDHEServerKeyExchange'
        for name, kx in enum_values(ctx, 'tls_core::suites::KeyExchangeAlgorithm' if 'tls_core::suites::KeyExchangeAlgorithm' in ctx.db.adts else kxa_path(ctx), None):
            for sn, sk in (('Unknown', agg(H + 'ServerKeyExchangePayload', 'Unknown', ['0'], [payload(T('arg', 'body'))])), ('ECDHE', agg(H + 'ServerKeyExchangePayload', 'ECDHE', ['0'], [T('arg', 'ske')]))):
                s = ctx.summ(f, args=[sk, kx], hook=dec_hook(f))
                x = T('arg', 'body')
                rd, rl = T('rd', E, x), T('rdlen', E, x)
                spec = AND(some(rd), c_le(length(x), rl)) if (name, sn) == ('ECDHE', 'Unknown') else 0
                key = 'params/unwrap_given_kxa/%s/%s' % (name, sn)
                ctx.same(key + '/accepted', okcond(s), spec, 'server key exchange accepted for this algorithm', s.loc)
                if spec != 0: ctx.value(key + '/value', okval(s), somev(rd), 'the parameters returned are the decoded ones', s.loc, care=okcond(s))
def somev(x): return fld(x, 'Some:0')
def kxa_path(ctx): return next((p for p in ctx.db.adts if p.endswith('::KeyExchangeAlgorithm')), 'KeyExchangeAlgorithm')
OPTION = 'core::option::Option'

# ---------------------------------------------------------------- T17
def T17(ctx):
    rv = ctx.fn('msgs::handshake::HandshakeMessagePayload::read_version')
    rd0 = ctx.method('msgs::codec::Codec', 'msgs::handshake::HandshakeMessagePayload', 'read')
    if rv is None: return
    f = ctx.db.fns[rv]
    B_ = T('arg', 'body')
    ftypes = {name: (tyname(fs[0][1]) if fs else None) for name, d, fs in ctx.db.adts[HP]['variants']}
    vers = [(n, v) for n, v in enum_values(ctx, EN + 'ProtocolVersion', None)]
    inl = INLINE - {H + 'ServerHelloPayload', H + 'HelloRetryRequest'}
    for name, tv in enum_values(ctx, HT, None):
        w = HS.get(name, 'Unknown')
        for vn, vv in vers:
            exp = w if not isinstance(w, dict) else w['13' if vn == 'TLSv1_3' else '12']
            key = 'decode/%s@%s' % (name, vn)
            with fits():
                buf = V.mkseq([T('s', T('enc', HT, tv)), T('s', V.mk_be(24, length(B_))), T('s', B_)])
                d = decode(ctx, rv, buf, [(argpos(f, 'ProtocolVersion'), vv)], hook=dec_hook(rv, inl))
            loc = ctx.loc(rv)
            ok = okcond(d); ok = AND(ok, valid2(ok))
            if exp is None:
                ctx.require(key, ok, 0, 'a type that must not appear on the wire is accepted', loc); continue
            if ok == 0:
                ctx.bad(key, 'never accepted', loc); continue
            is_hrr = 0
            for c, y in alts(okval(d)):
                for c2, p in alts(fld(y, 'payload')):
                    cc = ANDS(c, c2, ok)
                    if AND(cc, valid2(cc)) == 0: continue
                    if p.op != 'agg': ctx.unk(key, 'payload variant not determined'); continue
                    v = p.a[1]
                    ty = fld(y, 'typ')
                    if name == 'ServerHello':
                        # version and random were consumed first
                        PV, RN = EN + 'ProtocolVersion', H + 'Random'
                        r1 = V.mkslice(B_, T('rdlen', PV, B_), length(B_))
                        rnd = somev(T('rd', RN, r1))
                        same = c_eq(fld(rnd, '0'), bytes_arr(HRR_RANDOM))
                        want = same if v == 'HelloRetryRequest' else NOT(same) if v == 'ServerHello' else 0
                        ctx.require(key + '/' + v, cc, want, 'a server hello is a retry request iff it carries the retry random', loc)
                        ctx.value(key + '/%s/typ' % v, ty, en('HandshakeType', v), 'reported type', loc, care=cc)
                        if v == 'ServerHello':
                            r2 = V.mkslice(B_, V.add(T('rdlen', PV, B_), T('rdlen', RN, r1)), length(B_))
                            ctx.value(key + '/random', fld(p.a[3], 'random'), rnd, 'the random is the one received', loc, care=cc)
                            ctx.value(key + '/version', fld(p.a[3], 'legacy_version'), somev(T('rd', PV, B_)), 'the version is the one received', loc, care=cc)
                        elif v == 'HelloRetryRequest':
                            ctx.value(key + '/hrr-version', fld(p.a[3], 'legacy_version'), somev(T('rd', PV, B_)), 'the version is the one received', loc, care=cc)
                        continue
                    allowed = {exp} | ({'Unknown'} if exp in ('HelloRequest',) else set())
                    if v not in allowed: ctx.bad(key, 'decoded as %s instead of %s when %s' % (v, exp, showc(cc, lim=1)[:200]), loc); continue
                    if v == 'Unknown' and exp == 'HelloRequest': ctx.require(key + '/empty', AND(cc, c_eq(length(B_), I(0))), 0, 'an empty hello request is not recognised', loc)
                    ctx.value(key + '/typ', ty, tv, 'reported type', loc, care=cc)
                    if ftypes.get(v) in (None, M + 'base::Payload', H + 'ServerKeyExchangePayload'): ctx.ok(key); continue
                    ctx.value(key, p.a[3], somev(T('rd', ftypes[v], B_)) if not ftypes[v].startswith('alloc::vec') else p.a[3], 'the body is decoded as %s' % ftypes[v].rsplit('::', 1)[-1], loc, care=cc)
    if rd0:
        s = decode(ctx, rd0, T('arg', 'buf'))
        ctx.value('default-version', s.ret, T('rd', H + 'HandshakeMessagePayload', V12, T('arg', 'buf')), 'decoding without a version means TLS 1.2', ctx.loc(rd0))
    # a record hands its own version down
    vv = T('arg', 'vers')
    s = record_payload(ctx, en('ContentType', 'Handshake'), vv, B_)
    if s is not None and okval(s) is not None:
        hs = T('rd', H + 'HandshakeMessagePayload', vv, B_)
        for c, y in alts(okval(s)):
            if y.op == 'agg': ctx.value('record-version', y.a[3], somev(hs), 'a record payload is decoded under the version passed with it', s.loc, care=c)

# ---------------------------------------------------------------- T16
def T16(ctx):
    exact_records(ctx)
    MP = M + 'message::MessagePayload'
    ct = ctx.fn('msgs::message::MessagePayload::content_type')
    ec = ctx.fn('msgs::message::MessagePayload::encode')
    pl = ctx.method('core::convert::From', M + 'message::PlainMessage', 'from')
    for name, v in enum_values(ctx, MP, None):
        inner = P(name)
        ity = {'Alert': ALERT, 'Handshake': H + 'HandshakeMessagePayload', 'ChangeCipherSpec': M + 'ccs::ChangeCipherSpecPayload', 'ApplicationData': None}.get(name, 0)
        if ity == 0: ctx.bad('anchor:MessagePayload::' + name, 'payload variant without a specified content type', MP); continue
        if ct:
            s = ctx.summ(ct, args=[v])
            ctx.value('content_type/' + name, s.ret, en('ContentType', name), 'content type of a payload', s.loc)
        body = fld(inner, '0') if name == 'ApplicationData' else T('seq', T('s', T('enc', ity, inner)))
        if ec:
            e, s = encode(ctx, ec, v)
            ctx.value('encode/' + name, e, V.mkseq([T('s', body)]) if name == 'ApplicationData' else body, 'bytes of a payload', s.loc)
        if pl:
            vers = T('arg', 'version')
            s = ctx.summ(pl, args=[st(M + 'message::Message', version=vers, payload=v)], hook=enc_hook(pl))
            ctx.value('to-record/%s/typ' % name, fld(s.ret, 'typ'), en('ContentType', name), 'converting a message to a record keeps its content type', s.loc)
            ctx.value('to-record/%s/version' % name, fld(s.ret, 'version'), vers, 'converting a message to a record keeps its version', s.loc)
            ctx.value('to-record/%s/payload' % name, fld(s.ret, 'payload.0'), body, 'converting a message to a record keeps its bytes', s.loc)
    fields = ('typ', 'version', 'payload')
    for nm, pre in (('OpaqueMessage::into_plain_message', ''), ('PlainMessage::into_unencrypted_opaque', ''), ('PlainMessage::borrow', 'b'), ('BorrowedPlainMessage::to_unencrypted_opaque', 'o')):
        f = ctx.fn('msgs::message::' + nm, required=pre != 'o') or ctx.fn('msgs::message::' + nm.replace('::', "::<'_>::", 1), required=False)
        if f is None: continue
        s = ctx.summ(f)
        a = s.args[0]
        for k in fields:
            src = fld(a, k)
            got = fld(s.ret, k)
            if pre == 'b' and k == 'payload': src = fld(a, 'payload.0')
            if pre == 'o' and k == 'payload': got = fld(got, '0')
            ctx.value('carry/%s/%s' % (nm, k), got, src, 'conversion carries the record unchanged', s.loc)
    tf = ctx.method('core::convert::TryFrom', M + 'message::Message', 'try_from')
    if tf:
        s = ctx.summ(tf, stop=r'MessagePayload::new$')
        ctx.value('from-record/version', fld(okval(s), 'version'), fld(s.args[0], 'version'), 'the version of the record', s.loc, care=okcond(s))
        need_call(ctx, 'from-record/payload', s, okcond(s), r'MessagePayload::new$', [fld(s.args[0], 'typ'), fld(s.args[0], 'version'), fld(s.args[0], 'payload')], 'the payload is decoded under the content type and version of the record')
        for e in ctx.events(s, r'MessagePayload::new$'): ctx.value('from-record/value', fld(okval(s), 'payload'), V.okv(e.res), 'the decoded payload is returned', s.loc, care=okcond(s))
    oe = ctx.fn('msgs::message::OpaqueMessage::encode')
    if oe:
        a = A('record')
        with fits():
            s = ctx.summ(oe, args=[a], hook=enc_hook(oe))
            b = fld(a, 'payload.0')
            ctx.value('record-encoding', s.ret, T('seq', T('s', T('enc', CT, fld(a, 'typ'))), T('s', T('enc', EN + 'ProtocolVersion', fld(a, 'version'))), T('s', V.mk_be(16, length(b))), T('s', b)),
                      'a record is content type, version, 16-bit length, payload', s.loc)

# ---------------------------------------------------------------- T21
def T21(ctx):
    exact_params(ctx)
    # the structure itself: a named curve point
    f = ctx.method('msgs::codec::Codec', 'msgs::handshake::ECParameters', 'read')
    if f:
        B_ = T('arg', 'buf')
        d = decode(ctx, f, B_)
        ct = T('rd', EN + 'ECCurveType', B_)
        rest = V.mkslice(B_, T('rdlen', EN + 'ECCurveType', B_), length(B_))
        ng = T('rd', EN + 'NamedGroup', rest)
        ctx.same('ECParameters/accepted', okcond(d), ANDS(c_is(ct, OPTION, 'Some'), discr_is(somev(ct), EN + 'ECCurveType', 'NamedCurve'), c_is(ng, OPTION, 'Some')), 'only named curves are accepted', ctx.loc(f))
        ctx.value('ECParameters/group', fld(okval(d), 'named_group'), somev(ng), 'the group is the one received', ctx.loc(f), care=okcond(d))
    f = ctx.method('msgs::codec::Codec', 'msgs::handshake::ServerECDHParams', 'read')
    if f:
        B_ = T('arg', 'buf')
        d = decode(ctx, f, B_)
        cp = T('rd', H + 'ECParameters', B_)
        rest = V.mkslice(B_, T('rdlen', H + 'ECParameters', B_), length(B_))
        pb = T('rd', M + 'base::PayloadU8', rest)
        ctx.same('ServerECDHParams/accepted', okcond(d), AND(c_is(cp, OPTION, 'Some'), c_is(pb, OPTION, 'Some')), 'accepted iff curve and point decode', ctx.loc(f))
        if okval(d) is not None:
            ctx.value('ServerECDHParams/curve', fld(okval(d), 'curve_params'), somev(cp), 'curve parameters are the ones received', ctx.loc(f), care=okcond(d))
            ctx.value('ServerECDHParams/point', fld(okval(d), 'public'), somev(pb), 'the point is the one received', ctx.loc(f), care=okcond(d))
    f = ctx.fn('msgs::handshake::ServerECDHParams::new')
    if f:
        s = ctx.summ(f)
        ctx.value('ServerECDHParams::new/curve', fld(s.ret, 'curve_params.curve_type'), en('ECCurveType', 'NamedCurve'), 'built parameters name a curve', s.loc)
        ctx.value('ServerECDHParams::new/group', fld(s.ret, 'curve_params.named_group'), s.args[0], 'built parameters carry the given group', s.loc)
        ctx.value('ServerECDHParams::new/point', fld(s.ret, 'public.0'), s.args[1], 'built parameters carry the given point', s.loc)

# ---------------------------------------------------------------- T11
def reader_fn(ctx, m):
    for p in ("msgs::codec::Reader::<'_>::", 'msgs::codec::Reader::'):
        f = ctx.fn(p + m, required=False)
        if f: return f
    return ctx.fn('msgs::codec::Reader::' + m)
def lists(ctx):
    """read_vec_*: items are decoded, in order, from exactly the announced bytes"""
    for nm, w in (('read_vec_u8', 8), ('read_vec_u16', 16), ('read_vec_u24_limited', 24)):
        f = ctx.fn('msgs::codec::' + nm)
        if f is None: continue
        key = 'list/' + nm
        N, body, tail = T('arg', 'n'), T('arg', 'body'), T('arg', 'tail')
        lim = T('arg', 'limit')
        fn = ctx.db.fns[f]
        # header || body || tail: the announced number of bytes is len(body)
        with fits():
            buf = V.mkseq([T('s', V.mk_be(w, length(body))) if w > 8 else T('e', length(body)), T('s', body), T('s', tail)])
            extra = [(1, lim)] if w == 24 else ()
            V.LOOPS.clear()
            d = decode(ctx, f, buf, extra)
            dom = c_le(length(body), lim) if w == 24 else 1
            reads = ctx.events(d, r'Codec::read$')
            L = [l for l in V.LOOPS.values() if l.fn == f] if V.LOOPS and hasattr(next(iter(V.LOOPS.values())), 'fn') else [l for l in V.LOOPS.values() if l['fn'] == f]
            ctx.value(key + '/consumed', fld(d.after, 'offs') if d.after is not None else None, V.add(I(w // 8), length(body)), 'the list occupies its prefix and the announced bytes', ctx.loc(f), care=okcond(d))
            if not L:
                ctx.unk(key, 'no loop over the items found'); continue
            l = L[-1]
            g = lambda k: l[k] if isinstance(l, dict) else getattr(l, k)
            init, step = g('init'), g('step')
            acc = [k for k, v in init.items() if v.op == 'seq' and not v.a or v is T('seq')]
            rdv = [k for k, v in init.items() if v.op == 'agg' and v.a[0] == READER]
            if len(acc) != 1 or len(rdv) != 1: ctx.unk(key, 'loop state not recognised'); continue
            acc, rdr = acc[0], rdv[0]
            ctx.value(key + '/items-from', V.mkslice(fld(init[rdr], 'buf'), fld(init[rdr], 'offs'), length(fld(init[rdr], 'buf'))), body, 'items are decoded from exactly the announced bytes', ctx.loc(f))
            ctx.require(key + '/limit', g('reach'), dom, 'the limit is enforced before any item is decoded', ctx.loc(f))
            rest = remaining(agg(READER, 'Reader', ['buf', 'offs'], [fld(rdr, 'buf'), fld(rdr, 'offs')]))
            it = [t for c, x in alts(step[acc]) for t in subterms(x) if t.op == 'rd']
            tyn = it[0].a[0] if it else 'T'
            rd, rl = T('rd', tyn, rest), T('rdlen', tyn, rest)
            more = c_le(V.add(fld(rdr, 'offs'), I(1)), length(fld(rdr, 'buf')))
            rinv = c_le(fld(rdr, 'offs'), length(fld(rdr, 'buf')))      # holds of every reader (decided in T07)
            ctx.same(key + '/continue', g('back'), AND(more, c_is(rd, OPTION, 'Some')), 'the loop runs while announced bytes are left and items decode', ctx.loc(f), care=rinv)
            ctx.value(key + '/append', step[acc], V.mkseq([T('s', acc), T('e', somev(rd))]), 'every decoded item is appended, in order', ctx.loc(f), care=g('back'))
            ctx.value(key + '/advance', fld(step[rdr], 'offs') , V.add(fld(rdr, 'offs'), rl), 'the position advances by what the item consumed', ctx.loc(f), care=g('back'))
            ok = okcond(d)
            ctx.same(key + '/accepted', ok, ANDS(dom, NOT(more)), 'the list is accepted iff its items fill the announced bytes', ctx.loc(f), care=rinv)
            ctx.value(key + '/value', okval(d), acc, 'the list returned is the accumulated one', ctx.loc(f), care=ok)
    # too few bytes: announced more than present
    for nm, w in (('encode_vec_u8', 8), ('encode_vec_u16', 16), ('encode_vec_u24', 24)):
        f = ctx.fn('msgs::codec::' + nm)
        if f is None: continue
        items = T('arg', 'items')
        with fits():
            s = ctx.summ(f, args=[T('arg', 'out'), items], hook=enc_hook(f))
            fin = s.final(s.args[0])
            tys = {t.a[0].a[0] for t in subterms(fin) if t.op == 's' and t.a[0].op == 'enc'}
            ty = next(iter(tys)) if len(tys) == 1 else 'T'
            fe = flatenc(ty, items)
            pre = T('e', length(fe)) if w == 8 else T('s', V.mk_be(w, length(fe)))
            ctx.value('list/' + nm, fin, V.mkseq([T('s', s.args[0]), pre, T('s', fe)]), 'a list is written as the number of bytes that follow, then its items in order', s.loc)
def T11(ctx):
    lists(ctx)
    C = 'msgs::codec::Codec'
    for ty, w in (('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64), ('tls_core::msgs::codec::u24', 24)):
        e = ctx.db.impl_method(CODEC, ty, 'encode'); r = ctx.db.impl_method(CODEC, ty, 'read')
        if not e or not r or e not in ctx.db.fns:
            im = [x for x in codec_impls(ctx) if x[1] == ty]
            if not im: ctx.bad('anchor:' + ty, 'integer codec not found', ty); continue
            _, _, e, r = im[0]
        x = T('arg', 'x'); V.WIDTH.setdefault(x, w)
        v = x if w != 24 else agg(ty, 'u24', ['0'], [x])
        with fits(*([x] if w == 24 else [])):
            enc, s = encode(ctx, e, v)
            ctx.value('int/%s/encode' % ty, enc, V.mkseq([T('e', x)] if w == 8 else [T('s', V.mk_be(w, x))]), 'integers are written big-endian in their declared width', ctx.loc(e))
        B_ = T('arg', 'buf')
        d = decode(ctx, r, B_)
        n = w // 8
        ctx.same('int/%s/accepted' % ty, okcond(d), c_le(I(n), length(B_)), 'an integer decodes iff its bytes are there', ctx.loc(r))
        got = okval(d)
        b0 = V.mk_unbe(w, V.mkslice(B_, I(0), I(n))) if w > 8 else V.proj(B_, ('i', I(0)))
        if got is not None:
            ctx.value('int/%s/decode' % ty, got if w != 24 else fld(got, '0'), b0, 'integers are read big-endian in their declared width', ctx.loc(r), care=okcond(d))
        ctx.value('int/%s/consumed' % ty, fld(d.after, 'offs') if d.after is not None else None, I(n), 'exactly the integer is consumed', ctx.loc(r), care=okcond(d))
    for nm, w in (('put_u16', 16), ('put_u64', 64)):
        f = ctx.fn('msgs::codec::' + nm)
        if f is None: continue
        s = ctx.summ(f)
        fin = s.final(s.args[1])
        ctx.value('int/' + nm, V.mkslice(fin, I(0), I(w // 8)), V.mk_be(w, s.args[0]), 'written big-endian', s.loc)
    for nm, w in (('decode_u16', 16), ('decode_u32', 32), ('decode_u64', 64)):
        f = ctx.fn('msgs::codec::' + nm)
        if f is None: continue
        s = ctx.summ(f)
        x = s.args[0]
        ctx.same('int/%s/accepted' % nm, okcond(s), c_eq(length(x), I(w // 8)), 'decodes iff exactly the integer is given', s.loc)
        ctx.value('int/' + nm, okval(s), V.mk_unbe(w, x), 'read big-endian', s.loc, care=okcond(s))
    # the reader hands out consecutive, complete pieces
    buf, offs, ln = T('arg', 'rbuf'), T('arg', 'roffs'), T('arg', 'rlen')
    R0 = agg(READER, 'Reader', ['buf', 'offs'], [buf, offs])
    end = length(buf)
    inv = c_le(offs, end)
    def rcall(m, *a):
        f = reader_fn(ctx, m)
        if f is None: return None, None
        eng = ctx.engine(); rd = T('arg', 'reader', m)
        eng.init_state = {('T', rd): R0}
        s = eng.summarize(f, [rd] + list(a), None)
        s.engine = eng; s.loc = ctx.loc(f)
        ctx.functions |= eng.analysed
        s.after = eng.read(s.state, (('T', rd), ())) if s.state else None
        return s, s.loc
    for m in ('take', 'sub'):
        s, loc = rcall(m, ln)
        if s is None: continue
        want = c_le(V.add(offs, ln), end)
        ctx.same('reader/%s/accepted' % m, okcond(s), want, 'succeeds iff the bytes are there', loc, care=inv)
        piece = V.mkslice(buf, offs, V.add(offs, ln))
        ov = okval(s)
        if ov is None: ctx.bad('reader/%s/piece' % m, 'never succeeds', loc)
        else: ctx.value('reader/%s/piece' % m, ov if m == 'take' else remaining(ov), piece, 'hands out exactly the next bytes', loc, care=AND(inv, okcond(s)))
        ctx.value('reader/%s/advance' % m, fld(s.after, 'offs'), V.add(offs, ln), 'and advances past them', loc, care=AND(inv, okcond(s)))
        ctx.value('reader/%s/stay' % m, fld(s.after, 'offs'), offs, 'a failed read consumes nothing', loc, care=AND(inv, NOT(want)))
        ctx.value('reader/%s/same' % m, fld(s.after, 'buf'), buf, 'over the same buffer', loc)
    s, loc = rcall('rest')
    if s:
        ctx.value('reader/rest', s.ret, V.mkslice(buf, offs, end), 'the rest is everything not yet read', loc, care=inv)
        ctx.value('reader/rest/advance', fld(s.after, 'offs'), end, 'and is consumed', loc, care=inv)
    s, loc = rcall('any_left')
    if s: ctx.same('reader/any_left', cond(s.ret), c_le(V.add(offs, I(1)), end), 'bytes are left iff the position is before the end', loc, care=inv)
    s, loc = rcall('left')
    if s: ctx.value('reader/left', s.ret, V.sub(end, offs), 'number of bytes left', loc, care=inv)
    s, loc = rcall('used')
    if s: ctx.value('reader/used', s.ret, offs, 'number of bytes read', loc, care=inv)
    f = reader_fn(ctx, 'init')
    if f:
        s = ctx.summ(f)
        ctx.value('reader/init', remaining(s.ret), s.args[0], 'a new reader covers all bytes', s.loc)
    # opaque byte strings with their length
    for nm, w in (('PayloadU8', 8), ('PayloadU16', 16), ('PayloadU24', 24), ('Certificate', 24)):
        im = [x for x in codec_impls(ctx) if x[1] == (M + 'base::' + nm if nm != 'Certificate' else 'tls_core::key::Certificate')]
        if not im: ctx.bad('anchor:' + nm, 'codec not found', nm); continue
        _, _, e, r = im[0]
        with fits():
            v = A(nm); b = fld(v, '0')
            enc, s = encode(ctx, e, v)
            ctx.value('opaque/%s/encode' % nm, enc, V.mkseq([T('e', length(b)) if w == 8 else T('s', V.mk_be(w, length(b))), T('s', b)]), 'written as the number of bytes that follow, then the bytes', ctx.loc(e))
            B_ = T('arg', 'buf')
            d = decode(ctx, r, B_)
            n = V.proj(B_, ('i', I(0))) if w == 8 else V.mk_unbe(w, V.mkslice(B_, I(0), I(w // 8)))
            ctx.same('opaque/%s/accepted' % nm, okcond(d), AND(c_le(I(w // 8), length(B_)), c_le(V.add(n, I(w // 8)), length(B_))), 'accepted iff all announced bytes are there', ctx.loc(r))
            if okval(d) is not None: ctx.value('opaque/%s/decode' % nm, fld(okval(d), '0'), V.mkslice(B_, I(w // 8), V.add(n, I(w // 8))), 'the bytes announced', ctx.loc(r), care=okcond(d))
