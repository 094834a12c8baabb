"""Tables and decisions: enumerations (T10), hello accessors (T18), suites (T19), AAD and PRF (T20), versions (T25), PSK binders (T26)."""
import json, os, re
from rules import *
from mirval import *
import mirval as V, models
from wirelib import *
from wire import A, P, en, st, st_tuple, tup, payload, nonempty, somev, no_panic, EN, M, H

IANA = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'iana.json')))

# ---------------------------------------------------------------- T10
def T10(ctx):
    """For every protocol enumeration: variant -> code point and code point -> variant, over all 2^8 or 2^16 code points, against the
    IANA assignments recorded in rules/iana.json; codes not assigned to a variant decode to Unknown(code) and back; the wire codec
    writes and reads exactly that number."""
    for name, (w, tab) in sorted(IANA.items()):
        adt = EN + name
        a = ctx.db.adts.get(adt)
        key = 'T10.' + name
        if a is None: ctx.unk(key, 'enumeration not found'); continue
        vs = [v for v, _, _ in a['variants'] if v != 'Unknown']
        have = {v: c for v, c in tab.items() if v in vs}
        get = ctx.fn('msgs::enums::%s::get_u%d' % (name, w))
        frm = None
        for im in ctx.db.bytrait.get('core::convert::From', []):
            x, y = im['args'][0], im['args'][1]
            if x[:2] == ('adt', adt) and y == ('prim', 'u%d' % w): frm = dict(im['items']).get('from')
        codes = dict(have)
        if get is None: continue
        s = ctx.summ(get); v = s.args[0]
        for var in vs:
            c = discr_is(v, adt, var)
            if var in tab:
                ctx.value('%s.encode.%s' % (key, var), s.ret, I(tab[var]), '%s::%s is sent as its assigned code point' % (name, var), s.loc, care=c)
            else:
                vals = [x for cc, x in alts(s.ret) if AND(cc, c) != 0]
                if len(vals) == 1 and is_int(vals[0]):
                    if vals[0].a[0] in tab.values(): ctx.bad('%s.encode.%s' % (key, var), 'the new variant shares the code point 0x%x' % vals[0].a[0], s.loc)
                    else: codes[var] = vals[0].a[0]; ctx.ok('%s.encode.%s' % (key, var))
                else: ctx.unk('%s.encode.%s' % (key, var), 'code point of a new variant not recognised')
        ctx.value(key + '.encode.Unknown', s.ret, fld(v, 'Unknown:0'), 'an unassigned code point is sent as it is', s.loc, care=discr_is(v, adt, 'Unknown'))
        if frm is None: ctx.unk(key + '.decode', 'conversion from the code point not found'); continue
        s = ctx.summ(frm); x = s.args[0]
        V.WIDTH.setdefault(x, w)
        rest = 1
        for var, code in codes.items():
            cc = V.c_eqint(x, code, w); rest = AND(rest, NOT(cc))
            ctx.value('%s.decode.%s' % (key, var), s.ret, agg(adt, var, [], []), 'code point 0x%x is received as %s::%s' % (code, name, var), s.loc, care=cc)
        ctx.value(key + '.decode.Unknown', s.ret, agg(adt, 'Unknown', ['0'], [x]), 'every other code point is kept as it is', s.loc, care=rest)
        enc = ctx.method('msgs::codec::Codec', adt, 'encode')
        rd = ctx.method('msgs::codec::Codec', adt, 'read')
        g = re.escape(norm(get))
        if enc:
            s = ctx.summ(enc, stop='^%s$' % g, hook=lambda *a: None)
            ev = ctx.events(s, '^%s$' % g)
            fin = s.final(s.args[1])
            if len(ev) == 1: ctx.value(key + '.codec.encode', fin, V.mkseq([T('s', s.args[1]), T('e', ev[0].res) if w == 8 else T('s', V.mk_be(w, ev[0].res))]), 'the code point is written in network order', s.loc)
            else: ctx.unk(key + '.codec.encode', 'encoder does not use the code point')
        if rd:
            b = T('arg', 'buf')
            s = decode(ctx, rd, b, hook=lambda *a: None)
            ctx.same(key + '.codec.read.ok', okcond(s), c_le(I(w // 8), length(b)), 'a code point is read iff enough bytes are left', s.loc)
            got = okval(s); n = V.mk_unbe(w, V.mkslice(b, I(0), I(w // 8))) if w > 8 else V.proj(b, ('i', I(0)))
            V.WIDTH.setdefault(n, w)
            okc = okcond(s)
            miss = 1
            for var, code in codes.items():
                cc = V.c_eqint(n, code, w); miss = AND(miss, NOT(cc))
            if got is not None:
                for var in ('Unknown',):
                    ctx.same(key + '.codec.read.Unknown', AND(okc, discr_is(got, adt, 'Unknown')), AND(okc, miss), 'the bytes read are interpreted as the code point in network order', s.loc)

# ---------------------------------------------------------------- T18
TYPES = {
    'ClientExtension': dict(ECPointFormats='ECPointFormats', NamedGroups='EllipticCurves', SignatureAlgorithms='SignatureAlgorithms', ServerName='ServerName',
        SessionTicket='SessionTicket', Protocols='ALProtocolNegotiation', SupportedVersions='SupportedVersions', KeyShare='KeyShare', PresharedKeyModes='PSKKeyExchangeModes',
        PresharedKey='PreSharedKey', Cookie='Cookie', ExtendedMasterSecretRequest='ExtendedMasterSecret', CertificateStatusRequest='StatusRequest',
        SignedCertificateTimestampRequest='SCT', TransportParameters='TransportParameters', TransportParametersDraft='TransportParametersDraft', EarlyData='EarlyData'),
    'ServerExtension': dict(ECPointFormats='ECPointFormats', ServerNameAck='ServerName', SessionTicketAck='SessionTicket', RenegotiationInfo='RenegotiationInfo',
        Protocols='ALProtocolNegotiation', KeyShare='KeyShare', PresharedKey='PreSharedKey', ExtendedMasterSecretAck='ExtendedMasterSecret', CertificateStatusAck='StatusRequest',
        SignedCertificateTimestamp='SCT', SupportedVersions='SupportedVersions', TransportParameters='TransportParameters', TransportParametersDraft='TransportParametersDraft', EarlyData='EarlyData'),
    'HelloRetryExtension': dict(KeyShare='KeyShare', Cookie='Cookie', SupportedVersions='SupportedVersions'),
    'CertificateExtension': dict(CertificateStatus='StatusRequest', SignedCertificateTimestamp='SCT'),
    'CertReqExtension': dict(SignatureAlgorithms='SignatureAlgorithms', AuthorityNames='CertificateAuthorities'),
    'NewSessionTicketExtension': dict(EarlyData='EarlyData'),
}
EXT = EN + 'ExtensionType'
def typeis(ctx, ty, e, *names):
    """the extension value e has one of the named types"""
    adt = H + ty
    vs = [v for v, _, _ in ctx.db.adts[adt]['variants']]
    r = AND(c_is(e, adt, 'Unknown'), discr_is(fld(e, 'Unknown:0.typ'), EXT, *names))
    for v, t in TYPES[ty].items():
        if v in vs and t in names: r = OR(r, c_is(e, adt, v))
    return r
def exists(X, c): return NOT(V.mk_all(X, NOT(c)))

# (function, collection field, extension enum, type, variant, path below the variant's content)
GETTERS = [
    ('ClientHelloPayload::get_sni_extension', 'extensions', 'ClientExtension', 'ServerName', 'ServerName', ''),
    ('ClientHelloPayload::get_sigalgs_extension', 'extensions', 'ClientExtension', 'SignatureAlgorithms', 'SignatureAlgorithms', ''),
    ('ClientHelloPayload::get_namedgroups_extension', 'extensions', 'ClientExtension', 'EllipticCurves', 'NamedGroups', ''),
    ('ClientHelloPayload::get_ecpoints_extension', 'extensions', 'ClientExtension', 'ECPointFormats', 'ECPointFormats', ''),
    ('ClientHelloPayload::get_alpn_extension', 'extensions', 'ClientExtension', 'ALProtocolNegotiation', 'Protocols', ''),
    ('ClientHelloPayload::get_versions_extension', 'extensions', 'ClientExtension', 'SupportedVersions', 'SupportedVersions', ''),
    ('ClientHelloPayload::get_keyshare_extension', 'extensions', 'ClientExtension', 'KeyShare', 'KeyShare', ''),
    ('ClientHelloPayload::get_psk', 'extensions', 'ClientExtension', 'PreSharedKey', 'PresharedKey', ''),
    ('ClientHelloPayload::get_psk_modes', 'extensions', 'ClientExtension', 'PSKKeyExchangeModes', 'PresharedKeyModes', ''),
    ('HelloRetryRequest::get_requested_key_share_group', 'extensions', 'HelloRetryExtension', 'KeyShare', 'KeyShare', ''),
    ('HelloRetryRequest::get_cookie', 'extensions', 'HelloRetryExtension', 'Cookie', 'Cookie', ''),
    ('HelloRetryRequest::get_supported_versions', 'extensions', 'HelloRetryExtension', 'SupportedVersions', 'SupportedVersions', ''),
    ('ServerHelloPayload::get_key_share', 'extensions', 'ServerExtension', 'KeyShare', 'KeyShare', ''),
    ('ServerHelloPayload::get_psk_index', 'extensions', 'ServerExtension', 'PreSharedKey', 'PresharedKey', ''),
    ('ServerHelloPayload::get_ecpoints_extension', 'extensions', 'ServerExtension', 'ECPointFormats', 'ECPointFormats', ''),
    ('ServerHelloPayload::get_sct_list', 'extensions', 'ServerExtension', 'SCT', 'SignedCertificateTimestamp', ''),
    ('ServerHelloPayload::get_supported_versions', 'extensions', 'ServerExtension', 'SupportedVersions', 'SupportedVersions', ''),
    ('CertificateEntry::get_ocsp_response', 'exts', 'CertificateExtension', 'StatusRequest', 'CertificateStatus', 'ocsp_response.0'),
    ('CertificateEntry::get_scts', 'exts', 'CertificateExtension', 'SCT', 'SignedCertificateTimestamp', ''),
    ('CertificateRequestPayloadTLS13::get_sigalgs_extension', 'extensions', 'CertReqExtension', 'SignatureAlgorithms', 'SignatureAlgorithms', ''),
    ('CertificateRequestPayloadTLS13::get_authorities_extension', 'extensions', 'CertReqExtension', 'CertificateAuthorities', 'AuthorityNames', ''),
    ('NewSessionTicketPayloadTLS13::get_max_early_data_size', 'exts', 'NewSessionTicketExtension', 'EarlyData', 'EarlyData', ''),
]
FINDERS = [('ClientHelloPayload::find_extension', 'extensions', 'ClientExtension'), ('HelloRetryRequest::find_extension', 'extensions', 'HelloRetryExtension'),
           ('CertificateRequestPayloadTLS13::find_extension', 'extensions', 'CertReqExtension'), ('NewSessionTicketPayloadTLS13::find_extension', 'exts', 'NewSessionTicketExtension')]
OFFERED = [('ClientHelloPayload::ems_support_offered', 'extensions', 'ClientExtension', 'ExtendedMasterSecret'), ('ClientHelloPayload::early_data_extension_offered', 'extensions', 'ClientExtension', 'EarlyData'),
           ('ServerHelloPayload::ems_support_acked', 'extensions', 'ServerExtension', 'ExtendedMasterSecret')]
ONLY = [('HelloRetryRequest::has_unknown_extension', 'extensions', 'HelloRetryExtension', ('KeyShare', 'SupportedVersions', 'Cookie')),
        ('CertificateEntry::has_unknown_extension', 'exts', 'CertificateExtension', ('StatusRequest', 'SCT'))]
DUPS = [('ClientHelloPayload::has_duplicate_extension', 'extensions', 'ClientExtension'), ('HelloRetryRequest::has_duplicate_extension', 'extensions', 'HelloRetryExtension'),
        ('CertificateEntry::has_duplicate_extension', 'exts', 'CertificateExtension'), ('NewSessionTicketPayloadTLS13::has_duplicate_extension', 'exts', 'NewSessionTicketExtension')]
GU = r'(get_u16|get_u8|get_type)$'
def distinct_atoms(ctx, s):
    """[(condition that the loop's keys are all different, collection, key, problem)] for the duplicate-detecting loops of a summary"""
    out = []
    for lid, l in s.engine.loops.items():
        X = l.get('over')
        if X is None: continue
        for L, ini in l['init'].items():
            st_ = l['step'].get(L)
            if st_ is None or not (ini.op == 'set0' or st_.op == 'seti' or contains(st_, lambda t: t.op == 'seti')): continue
            bad = None
            if ini.op != 'set0': bad = 'the set of types already seen does not start empty: ' + show(ini)[:200]
            elif st_.op != 'seti' or st_.a[0] is not L: bad = 'an extension passed over is not remembered: the set of seen types becomes %s' % show(st_)[:300]
            else:
                k = st_.a[1]
                a = V.mk_all(X, NOT(V.bvar(T('setin', L, k))))
                out.append((a, X, k, None)); continue
            out.append((None, X, None, bad))
    return out + set_sizes(s) + neighbours(s) + pairs(ctx, s)
def ret_atoms(s):
    seen = {}
    for t in subterms(s.ret):
        if t.op == 'cond':
            for v in B.support(t.a[0]): seen[V.ATOMS[v]] = v
    return [(k[1], v) for k, v in seen.items() if k[0] == 'b']
def set_sizes(s):
    """the set of all keys is as large as the collection"""
    out = []; done = set()
    for t, v in ret_atoms(s):
        for x in subterms(t):
            if x.op == 'setof' and x not in done and x.a[0].op == 'coll' and len(x.a[0].a) == 2:
                done.add(x)
                X = x.a[0].a[0]
                out.append((NOT(V.c_lt(V.length(x), V.length(X))), X, x.a[0].a[1], None))
    return out
def neighbours(s):
    """no two neighbours among the sorted keys are equal"""
    out = []
    for t, v in ret_atoms(s):
        if t.op != 'all' or t.a[0].op != 'chunks' or t.a[0].a[1] is not I(2) or t.a[0].a[2:] != (V.T('str', 'windows'),): continue
        y = t.a[0].a[0]
        if y.op != 'eff' or not re.search(r'sort(_unstable)?$', norm(y.a[0].a[0])) or y.a[0].a[-1].op != 'coll' or len(y.a[0].a[-1].a) != 2: continue
        w = V.elem(t.a[0]); a, b = V.proj(w, ('i', I(0))), V.proj(w, ('i', I(1)))
        if AND(V.c_le(a, b), XOR(t.a[1], V.c_lt(a, b))) == 0: out.append((V.bvar(t), y.a[0].a[-1].a[0], y.a[0].a[-1].a[1], None))
    return out
def pairs(ctx, s):
    """every element is compared with each before it"""
    out = []
    for t, v in ret_atoms(s):
        if t.op != 'all' or t.a[0].op != 'enum': continue
        X = t.a[0].a[0]; before = V.mkslice(X, I(0), V.T('idx', X)); x, y = V.elem(before), V.elem(X)
        inner = [k for k in (V.ATOMS[n] for n in B.support(t.a[1])) if k[0] == 'b' and k[1].op == 'all' and k[1].a[0] is before]
        if len(inner) != 1 or t.a[1] != V.bvar(inner[0][1]): continue
        P = NOT(inner[0][1].a[1])
        ks = {}
        for n in B.support(P):
            for z in subterms(V.ATOMS[n][1]):
                if z.op == 'call' and re.search(GU, norm(z.a[0])): ks[z] = 1
        ks = [z for z in ks if not contains(z, lambda u: u is x) and not any(z is not o and contains(o, lambda u: u is z) for o in ks)]
        if len(ks) != 1: continue
        ky, = ks; kx = V.subst(ky, {y: x, 'all': 1}, {})
        if re.search(r'get_u(16|8)$', norm(ky.a[0])):
            if XOR(P, V.c_eq(kx, ky)) == 0: out.append((V.bvar(t), X, ky, None))
        else:
            ad = EXT_EQ(ctx, kx, ky)
            if ad is not None and XOR(P, ad) == 0: out.append((V.bvar(t), X, V.T('call', 'tls_core::msgs::enums::ExtensionType::get_u16', ky), None))
    return out
def EXT_EQ(ctx, x, y):
    f = ctx.db.impl_method('core::cmp::PartialEq', 'tls_core::msgs::enums::ExtensionType', 'eq')
    return cond(ctx.summ(f, args=[x, y]).ret) if f else None
def dup_rule(ctx, key, f, X, kspec, msg, pre=1, s=None):
    """returns true iff two elements of X have the same key"""
    s = s or ctx.summ(f, stop=GU)
    X = X(s) if callable(X) else X
    ds = [d for d in distinct_atoms(ctx, s) if d[1] is X or V.iterable(d[1]) is X]
    if not ds and X is not None and hasattr(X, 'op') and (at := [V.ATOMS[v] for v in B.support(cond(s.ret))]) is not None and all(blind(x, X) for x in at):
        ctx.bad(key, '%s: the answer does not depend on the elements' % msg, s.loc); return
    if len(ds) != 1: ctx.unk(key, 'duplicate detection not recognised (%d candidates)' % len(ds)); return
    a, X, k, bad = ds[0]; X = V.iterable(X)
    if bad: ctx.bad(key, '%s: %s' % (msg, bad), s.loc); return
    r = kspec(k, V.elem(X))
    if r: (ctx.bad if r[0] == 'bad' else ctx.unk)(key + '.key', *(('%s: %s' % (msg, r[1]),) + ((s.loc,) if r[0] == 'bad' else ())))
    else: ctx.ok(key + '.key')
    ctx.same(key, cond(s.ret), AND(pre(s) if callable(pre) else pre, NOT(a)), msg, s.loc)
def blind(atom, X):
    """this atom says nothing about X but its length"""
    t = atom[1]
    return t is length(X) or not contains(t, lambda u: u is X) and not contains(t, lambda u: u.op in ('call', 'callv', 'lv', 'eff'))
def key_is(ctx, outer, sub=None, inner='get_type'):
    """the compared key is the code point of the element's type"""
    def chk(k, el):
        x = [t for t in subterms(k) if t.op == 'call' and norm(t.a[0]).endswith(outer)]
        if len(x) != 1: return ('unk', 'key is ' + show(k)[:200])
        if x[0] is not k: return ('bad', 'the types are compared only in part: %s' % show(k)[:200])
        y = x[0].a[-1]
        if sub is not None: return ctx.tdiff(y, fld(el, sub))
        if y.op == 'call' and norm(y.a[0]).endswith(inner): return ctx.tdiff(y.a[-1], el)
        return ('unk', 'key is ' + show(k)[:200])
    return chk
def anyof(ctx, key, actual, specs, msg, where):
    """ctx.same against the first of several equivalent specifications that is met (else against the first)"""
    for sp in specs:
        if ctx.verdict(XOR(actual, sp), actual, sp)[0] == 'ok': ctx.ok(key); return True
    return ctx.same(key, actual, specs[0], msg, where)
def T18(ctx):
    """Extension accessors: each get_type against the table of extension types; each finder/getter/offered/unknown/duplicate query as a
    function of the collection (exists an element of the named type; that element's content), duplicates via the seen-set loop."""
    h = 'msgs::handshake::'
    for ty, tab in TYPES.items():
        f = ctx.fn(h + ty + '::get_type')
        if f is None or H + ty not in ctx.db.adts: continue
        s = ctx.summ(f); x = s.args[0]
        for v, fs in [(a[0], a[2]) for a in ctx.db.adts[H + ty]['variants']]:
            c = c_is(x, H + ty, v)
            if v == 'Unknown': ctx.value('T18.type.%s.Unknown' % ty, s.ret, fld(x, 'Unknown:0.typ'), 'an unknown extension reports its own type', s.loc, care=c)
            elif v in tab: ctx.value('T18.type.%s.%s' % (ty, v), s.ret, agg(EXT, tab[v], [], []), 'extension type', s.loc, care=c)
            else: ctx.notes.append('new variant %s::%s not in the table' % (ty, v))
    for nm, col, ty in FINDERS:
        f = ctx.fn(h + nm)
        if f is None: continue
        for t in sorted(set(TYPES[ty].values())):
            s = ctx.summ(f, args=[T('arg', 0), agg(EXT, t, [], [])])
            X = fld(s.args[0], col); ex = exists(X, typeis(ctx, ty, V.elem(X), t))
            ctx.same('T18.%s.%s' % (nm, t), okcond(s), ex, 'found iff an extension of that type is present', s.loc)
            ctx.value('T18.%s.%s.value' % (nm, t), okval(s), V.elem(X), 'what is found is the extension of that type', s.loc)
    for nm, col, ty, t, var, path in GETTERS:
        f = ctx.fn(h + nm)
        if f is None: continue
        s = ctx.summ(f)
        X = fld(s.args[0], col); el = V.elem(X)
        want = fld(el, var + ':0' + ('.' + path if path else ''))
        # selecting by type, or by variant (they differ only for values that are never decoded)
        anyof(ctx, 'T18.' + nm, okcond(s), [AND(exists(X, typeis(ctx, ty, el, t)), c_is(el, H + ty, var)), exists(X, c_is(el, H + ty, var))], 'the content is reported iff the extension is present', s.loc)
        ctx.value('T18.%s.value' % nm, okval(s), want, 'the content is that of the extension', s.loc)
    f = ctx.fn(h + 'ClientHelloPayload::get_ticket_extension')
    if f:
        s = ctx.summ(f); X = fld(s.args[0], 'extensions')
        ctx.same('T18.get_ticket_extension', okcond(s), exists(X, typeis(ctx, 'ClientExtension', V.elem(X), 'SessionTicket')), 'the ticket extension is reported iff present', s.loc)
        ctx.value('T18.get_ticket_extension.value', okval(s), V.elem(X), 'it is that extension', s.loc)
    for nm, col, ty, t in OFFERED:
        f = ctx.fn(h + nm)
        if f is None: continue
        s = ctx.summ(f); X = fld(s.args[0], col)
        ctx.same('T18.' + nm, cond(s.ret), exists(X, typeis(ctx, ty, V.elem(X), t)), 'reported iff the extension is present', s.loc)
    for nm, col, ty, ts in ONLY:
        f = ctx.fn(h + nm)
        if f is None: continue
        s = ctx.summ(f); X = fld(s.args[0], col)
        ctx.same('T18.' + nm, cond(s.ret), exists(X, NOT(typeis(ctx, ty, V.elem(X), *ts))), 'true iff an extension of any other type is present', s.loc)
    for nm, col, ty in DUPS:
        f = ctx.fn(h + nm)
        if f is None: continue
        dup_rule(ctx, 'T18.' + nm, f, lambda s, col=col: fld(s.args[0], col), key_is(ctx, 'ExtensionType::get_u16'), 'true iff two extensions have the same type')
    f = ctx.fn(h + 'ClientHelloPayload::has_keyshare_extension_with_duplicates')
    if f:
        ks = lambda s: fld(V.elem(fld(s.args[0], 'extensions')), 'KeyShare:0')
        s = ctx.summ(f, stop=r'get_u16$')
        X = fld(s.args[0], 'extensions'); el = V.elem(X)
        pre = AND(exists(X, typeis(ctx, 'ClientExtension', el, 'KeyShare')), c_is(el, H + 'ClientExtension', 'KeyShare'))
        dup_rule(ctx, 'T18.keyshare_duplicates', f, ks(s), key_is(ctx, 'NamedGroup::get_u16', 'group'), 'true iff two key shares are for the same group', pre, s)
    f = ctx.fn(h + 'ClientHelloPayload::psk_mode_offered')
    if f:
        for var in ('PSK_KE', 'PSK_DHE_KE'):
            s = ctx.summ(f, args=[T('arg', 0), agg(EN + 'PSKKeyExchangeMode', var, [], [])])
            X = fld(s.args[0], 'extensions'); el = V.elem(X); m = fld(el, 'PresharedKeyModes:0')
            listed = exists(m, c_is(V.elem(m), EN + 'PSKKeyExchangeMode', var)); own = c_is(el, H + 'ClientExtension', 'PresharedKeyModes')
            anyof(ctx, 'T18.psk_mode_offered.' + var, cond(s.ret), [ANDS(exists(X, typeis(ctx, 'ClientExtension', el, 'PSKKeyExchangeModes')), own, listed), AND(exists(X, own), listed)], 'a mode is offered iff it is listed', s.loc)
    for nm, q, pred in (('any_entry_has_unknown_extension', 'unknown', lambda e: exists(fld(e, 'exts'), NOT(typeis(ctx, 'CertificateExtension', V.elem(fld(e, 'exts')), 'StatusRequest', 'SCT')))),
                        ('any_entry_has_extension', 'any', lambda e: nonempty(fld(e, 'exts')))):
        f = ctx.fn(h + 'CertificatePayloadTLS13::' + nm)
        if f is None: continue
        s = ctx.summ(f); X = fld(s.args[0], 'entries')
        ctx.same('T18.' + nm, cond(s.ret), exists(X, pred(V.elem(X))), 'true iff some certificate entry has one', s.loc)
    f = ctx.fn(h + 'CertificatePayloadTLS13::any_entry_has_duplicate_extension')
    if f:
        s = ctx.summ(f, stop=GU)
        X = fld(s.args[0], 'entries'); E = fld(V.elem(X), 'exts')
        ds = [d for d in distinct_atoms(ctx, s) if d[1] is E and d[0] is not None]
        if len(ds) != 1: ctx.unk('T18.any_entry_has_duplicate_extension', 'duplicate detection not recognised')
        else: ctx.same('T18.any_entry_has_duplicate_extension', cond(s.ret), exists(X, NOT(ds[0][0])), 'true iff some certificate entry has duplicates', s.loc)
    for nm, var, t, path in (('get_end_entity_ocsp', 'CertificateStatus', 'StatusRequest', 'CertificateStatus:0.ocsp_response.0'), ('get_end_entity_scts', 'SignedCertificateTimestamp', 'SCT', 'SignedCertificateTimestamp:0')):
        f = ctx.fn(h + 'CertificatePayloadTLS13::' + nm)
        if f is None: continue
        s = ctx.summ(f); X = fld(s.args[0], 'entries'); e0 = V.proj(X, ('i', I(0))); E = fld(e0, 'exts'); el = V.elem(E)
        has = ANDS(nonempty(X), exists(E, typeis(ctx, 'CertificateExtension', el, t)), c_is(el, H + 'CertificateExtension', var))
        if nm.endswith('scts'):
            ctx.same('T18.' + nm, okcond(s), has, 'reported iff the first entry carries it', s.loc)
            ctx.value('T18.%s.value' % nm, okval(s), fld(el, path), 'content of the first entry', s.loc)
        else:
            ctx.value('T18.' + nm, s.ret, fld(el, path), 'content of the first entry', s.loc, care=has)
            ctx.value('T18.%s.absent' % nm, length(s.ret), I(0), 'empty if absent', s.loc, care=NOT(has))
    f = ctx.fn(h + 'CertificatePayloadTLS13::convert')
    if f:
        s = ctx.summ(f); X = fld(s.args[0], 'entries')
        ctx.value('T18.convert', s.ret, T('coll', X, fld(V.elem(X), 'cert')), 'the chain is the certificates of the entries in order', s.loc)
    # server extensions through the trait
    for self_, get in (('ServerHelloPayload', lambda x: fld(x, 'extensions')), ):
        f = ctx.method(h + 'HasServerExtensions', H + self_, 'get_extensions', False)
        if f:
            s = ctx.summ(f); ctx.value('T18.%s.get_extensions' % self_, s.ret, get(s.args[0]), 'the extensions of the message', s.loc)
    for nm in ('has_duplicate_extension', 'find_extension', 'get_alpn_protocol', 'early_data_extension_offered'):
        f = ctx.fn(h + 'HasServerExtensions::' + nm)
        if f is None: continue
        exts = {}
        def hook(eng, fr, np, fi, env, args, st_, reach, ln, ta):
            if np.endswith('::get_extensions'): exts['x'] = T('arg', 'exts'); return (1, T('arg', 'exts'), st_)
            return None
        E = T('arg', 'exts'); el = V.elem(E); SELF = {0: ('adt', H + 'ServerHelloPayload', ())}
        if nm == 'has_duplicate_extension':
            s = ctx.summ(f, stop=GU, hook=hook)
            dup_rule(ctx, 'T18.server.' + nm, f, E, key_is(ctx, 'ExtensionType::get_u16'), 'true iff two extensions have the same type', s=s)
        elif nm == 'find_extension':
            for t in sorted(set(TYPES['ServerExtension'].values())):
                s = ctx.summ(f, hook=hook, args=[T('arg', 0), agg(EXT, t, [], [])])
                ctx.same('T18.server.%s.%s' % (nm, t), okcond(s), exists(E, typeis(ctx, 'ServerExtension', el, t)), 'found iff an extension of that type is present', s.loc)
                ctx.value('T18.server.%s.%s.value' % (nm, t), okval(s), el, 'what is found is the extension of that type', s.loc)
        elif nm == 'get_alpn_protocol':
            s = ctx.summ(f, hook=hook, env=SELF); p = fld(el, 'Protocols:0')
            ctx.same('T18.server.' + nm, okcond(s), ANDS(exists(E, typeis(ctx, 'ServerExtension', el, 'ALProtocolNegotiation')), c_is(el, H + 'ServerExtension', 'Protocols'), c_eq(length(p), I(1))),
                     'a protocol is reported iff exactly one was selected', s.loc)
            ctx.value('T18.server.%s.value' % nm, okval(s), fld(V.proj(p, ('i', I(0))), '0'), 'it is the selected one', s.loc)
        else:
            s = ctx.summ(f, hook=hook, env=SELF)
            ctx.same('T18.server.' + nm, cond(s.ret), exists(E, typeis(ctx, 'ServerExtension', el, 'EarlyData')), 'reported iff the extension is present', s.loc)
    # server name lists
    snr = None
    for fid in ctx.db.fns:
        n = norm(fid)
        if n.endswith('has_duplicate_names_for_type') and 'closure' not in n:
            s = ctx.summ(fid, stop=GU)
            dup_rule(ctx, 'T18.sni.duplicates', fid, s.args[0], key_is(ctx, 'ServerNameType::get_u8', 'typ'), 'true iff two names have the same type', s=s)
        if n.endswith('::get_single_hostname') and 'closure' not in n:
            s = ctx.summ(fid); X = s.args[0]; el = V.elem(X)
            c = c_is(fld(el, 'payload'), H + 'ServerNamePayload', 'HostName')
            ctx.same('T18.sni.hostname', okcond(s), exists(X, c), 'a host name is reported iff one is listed', s.loc)
            ctx.value('T18.sni.hostname.value', okval(s), fld(el, 'payload.HostName:0.1'), 'it is the listed one', s.loc)
    small_T18(ctx)

# ---------------------------------------------------------------- short collections, evaluated exactly
def small(ctx, key, f, args, want, msg, hook=None, env=None):
    """the function on a collection of known length and known types: the abstract value of the result is then exact; only a definite
    contradiction counts (the general rules decide the rest)"""
    s = ctx.summ(f, args=args, hook=hook, env=env)
    if callable(want): r = want(s)
    else: r = None if cond(s.ret) in (0, 1) and cond(s.ret) == want else ('bad', show(s.ret)[:80]) if cond(s.ret) in (0, 1) else ('unk', '')
    if r is None: ctx.ok(key)
    elif r[0] == 'bad': ctx.bad(key, '%s: %s' % (msg, r[1]), s.loc)
def arrs(items, n):
    import itertools
    items = list(items)
    for k in range(n + 1):
        for c in itertools.product(items if k < 3 else items[1:4], repeat=k): yield c
def unknown_ext(ty, code):
    return agg(H + ty, 'Unknown', ['0'], [agg(H + 'UnknownExtension', 'UnknownExtension', ['typ', 'payload'], [agg(EXT, 'Unknown', ['0'], [I(code)]), T('arg', 'p', code)])])
def put(root, field, items): return V.update(root, (('f', '', field),), T('arr', *items))
def small_T18(ctx):
    h = 'msgs::handshake::'
    def alphabet(ty):
        tab = TYPES[ty]; vs = [v for v in tab if v != 'Unknown' and H + ty in ctx.db.adts and any(x[0] == v and len(x[2]) <= 1 for x in ctx.db.adts[H + ty]['variants'])][:2]
        out = []
        for v in vs: out += [(tab[v], agg(H + ty, v, ['0'], [T('arg', 'x', v, i)])) for i in (0, 1)][:2 if v is vs[0] else 1]
        for c in (0x1111, 0x2211, 0x1122, 0x1111): out.append((c, unknown_ext(ty, c)))
        return out
    dup = lambda c: int(len({k for k, _ in c}) < len(c))
    for nm, col, ty in DUPS:
        f = ctx.fn(h + nm)
        if f is None: continue
        al = alphabet(ty)
        for i, c in enumerate(arrs(al[:4] + al[5:6], 3)):
            small(ctx, 'T18.%s.short.%d' % (nm, i), f, [put(T('arg', 0), col, [x for _, x in c])], dup(c), 'true iff two extensions have the same type; with %s it is' % [k for k, _ in c])
    f = ctx.fn(h + 'HasServerExtensions::has_duplicate_extension')
    if f:
        al = alphabet('ServerExtension')
        for i, c in enumerate(arrs(al[:4] + al[5:6], 3)):
            E = T('arr', *[x for _, x in c])
            small(ctx, 'T18.server.has_duplicate_extension.short.%d' % i, f, [T('arg', 0)], dup(c), 'true iff two extensions have the same type; with %s it is' % [k for k, _ in c],
                  hook=lambda eng, fr, np, fi, env, args, st_, reach, ln, ta: (1, E, st_) if np.endswith('::get_extensions') else None)
    f = ctx.fn(h + 'ClientHelloPayload::has_keyshare_extension_with_duplicates')
    if f:
        gs = [en('NamedGroup', 'X25519'), en('NamedGroup', 'secp256r1'), en('NamedGroup', 'Unknown', I(0x1d00)), en('NamedGroup', 'Unknown', I(0x9a1d))]
        for i, c in enumerate(arrs(range(4), 3)):
            ks = T('arr', *[agg(H + 'KeyShareEntry', 'KeyShareEntry', ['group', 'payload'], [gs[k], T('arg', 'ke', n)]) for n, k in enumerate(c)])
            for pre in ([], [agg(H + 'ClientExtension', 'Protocols', ['0'], [T('arg', 'x')])]):
                small(ctx, 'T18.keyshare_duplicates.short.%d.%d' % (i, len(pre)), f, [put(T('arg', 0), 'extensions', pre + [agg(H + 'ClientExtension', 'KeyShare', ['0'], [ks])])], int(len(set(c)) < len(c)),
                      'true iff two key shares are for the same group; with the groups %s it is' % [show(gs[k])[-30:] for k in c])
    al = [x for x in alphabet('CertificateExtension')][:4]
    entry = lambda n, c: agg(H + 'CertificateEntry', 'CertificateEntry', ['cert', 'exts'], [T('arg', 'cert', n), T('arr', *[x for _, x in c])])
    lists = [[], al[:1], al[:2], [al[0], al[2]]]
    for nm, q in (('any_entry_has_duplicate_extension', dup), ('any_entry_has_unknown_extension', lambda c: int(any(k not in ('StatusRequest', 'SCT') for k, _ in c))), ('any_entry_has_extension', lambda c: int(bool(c)))):
        f = ctx.fn(h + 'CertificatePayloadTLS13::' + nm)
        if f is None: continue
        al2 = lists + [[(0x1111, unknown_ext('CertificateExtension', 0x1111))]] if q is not dup else lists
        for i, c in enumerate(arrs(al2, 3)):
            small(ctx, 'T18.%s.short.%d' % (nm, i), f, [put(T('arg', 0), 'entries', [entry(n, x) for n, x in enumerate(c)])], int(any(q(x) for x in c)), 'true iff some certificate entry does')
def small_T19(ctx, consts):
    """consts: suite code -> the constant describing it"""
    A_, B_ = 'TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256', 'TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256'
    C_ = next((c for c in sorted(consts) if c.startswith('TLS13')), None)
    have = [c for c in (A_, B_, C_) if c in consts]
    if len(have) < 2: return
    code = lambda c: agg(CSE, c, [], [])
    for nm in ('client', 'server'):
        f = ctx.fn('suites::choose_ciphersuite_preferring_' + nm)
        if f is None: continue
        for i, c in enumerate(arrs(have + ['TLS_NULL_WITH_NULL_NULL'], 2)):
            for j, d in enumerate(arrs(have, 2)):
                o, n = (c, d) if nm == 'client' else (d, c)
                want = next((x for x in o if x in n), None)
                def check(s, want=want):
                    got = okcond(s)
                    if got not in (0, 1): return ('unk', '')
                    v = vname(fld(okval(s), ('Tls13' if (want or '').startswith('TLS13') else 'Tls12') + ':0.common.suite')) if got else None
                    if got and v is None: return ('unk', '') if want else ('bad', 'a suite is chosen although there is no common one')
                    return None if v == want else ('bad', '%s is chosen from %s (client) and %s (server)' % (v, list(c), list(d)))
                small(ctx, 'T19.choose.%s.short.%d.%d' % (nm, i, j), f, [T('arr', *[code(x) for x in c]), T('arr', *[consts[x] for x in d])], check, 'the first suite in the order of the %s that both sides have' % nm)
    f = ctx.fn('suites::compatible_sigscheme_for_suites')
    if f:
        for sch, (alg, _) in SCHEME_SIGN.items():
            if 'SHA1' in sch or 'ED' in sch[:2]: continue
            for i, c in enumerate(arrs(have, 2)):
                want = int(any(x.startswith('TLS13') or ('_RSA_' in x) == (alg == 'RSA') for x in c))
                small(ctx, 'T19.compatible.short.%s.%d' % (sch, i), f, [agg(SSE, sch, [], []), T('arr', *[consts[x] for x in c])], want, '%s is compatible iff some suite is usable for it; with the suites %s it is' % (sch, list(c)))

# ---------------------------------------------------------------- T19
SU = 'tls_core::suites::'
CSE = EN + 'CipherSuite'
SSE = EN + 'SignatureScheme'
RSA_S = ['RSA_PKCS1_SHA256', 'RSA_PKCS1_SHA384', 'RSA_PKCS1_SHA512', 'RSA_PSS_SHA256', 'RSA_PSS_SHA384', 'RSA_PSS_SHA512']
EC_S = ['ECDSA_NISTP256_SHA256', 'ECDSA_NISTP384_SHA384', 'ECDSA_NISTP521_SHA512', 'ED25519']
# suite -> (variant, AEAD, hash, signature schemes, fixed IV, explicit nonce)      RFC 5288/5289 (GCM: 4 + 8), RFC 7905 (12 + 0), RFC 8446 B.4
SUITE = {
    'TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256': ('Tls12', 'CHACHA20_POLY1305', 'SHA256', EC_S, 12, 0),
    'TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256': ('Tls12', 'CHACHA20_POLY1305', 'SHA256', RSA_S, 12, 0),
    'TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256': ('Tls12', 'AES_128_GCM', 'SHA256', RSA_S, 4, 8),
    'TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384': ('Tls12', 'AES_256_GCM', 'SHA384', RSA_S, 4, 8),
    'TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256': ('Tls12', 'AES_128_GCM', 'SHA256', EC_S, 4, 8),
    'TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384': ('Tls12', 'AES_256_GCM', 'SHA384', EC_S, 4, 8),
    'TLS13_CHACHA20_POLY1305_SHA256': ('Tls13', 'CHACHA20_POLY1305', 'SHA256', None, None, None),
    'TLS13_AES_256_GCM_SHA384': ('Tls13', 'AES_256_GCM', 'SHA384', None, None, None),
    'TLS13_AES_128_GCM_SHA256': ('Tls13', 'AES_128_GCM', 'SHA256', None, None, None),
}
# scheme -> (signature algorithm, hash); RFC 8446 4.2.3, RFC 5246 7.4.1.4.1
SCHEME_SIGN = {}
for _k in ('RSA_PKCS1_SHA1',): SCHEME_SIGN[_k] = ('RSA', 'SHA1')
for _h in ('SHA256', 'SHA384', 'SHA512'):
    SCHEME_SIGN['RSA_PKCS1_' + _h] = ('RSA', _h); SCHEME_SIGN['RSA_PSS_' + _h] = ('RSA', _h)
SCHEME_SIGN.update({'ECDSA_SHA1_Legacy': ('ECDSA', 'SHA1'), 'ECDSA_NISTP256_SHA256': ('ECDSA', 'SHA256'), 'ECDSA_NISTP384_SHA384': ('ECDSA', 'SHA384'),
                    'ECDSA_NISTP521_SHA512': ('ECDSA', 'SHA512'), 'ED25519': ('ECDSA', None), 'ED448': ('ECDSA', None)})
# what the TLS 1.2 convention of this library calls the algorithm of the Ed schemes (RFC 8422: they use the ECDSA cipher suites)
HASHLEN = {'SHA1': 20, 'SHA256': 32, 'SHA384': 48, 'SHA512': 64, 'SHA512_256': 32}

def vname(t): return t.a[1] if t is not None and t.op == 'agg' else None
def eqv(ctx, ty, a, b):
    """the condition under which the type's own equality holds"""
    f = ctx.method('core::cmp::PartialEq', ty, 'eq')
    if f is None: return bvar(T('eqq', a, b))
    return cond(ctx.summ(f, args=[a, b]).ret)
def ret(ctx, name, *args, **kw):
    f = ctx.fn(name)
    return None if f is None else ctx.summ(f, args=list(args), **kw).ret

def suite_entry(ctx, key, t, name=None, loc=''):
    """one suite value against the table"""
    if t.op != 'agg' or t.a[1] not in ('Tls12', 'Tls13') or t.a[3].op != 'agg': ctx.unk(key, 'suite value not evaluated: ' + show(t)[:200]); return None
    inner = t.a[3]
    get = lambda p: fld(inner, p)
    code = vname(get('common.suite'))
    if code not in SUITE:
        (ctx.unk if code else ctx.unk)(key, 'suite %s is not in the table' % code); return code
    if name in SUITE and name != code: ctx.bad(key + '.name', 'the constant %s describes the suite %s' % (name, code), loc); return code
    var, aead, h, sign, iv, nonce = SUITE[code]
    def eq(what, got, want):
        if got is None: ctx.unk('%s.%s' % (key, what), 'not evaluated')
        elif got != want: ctx.bad('%s.%s' % (key, what), 'suite %s: %s is %s, the standard assigns %s' % (code, what, got, want), loc)
        else: ctx.ok('%s.%s' % (key, what))
    eq('version', t.a[1], var)
    eq('AEAD', vname(get('common.aead_algorithm')), aead)
    if t.a[1] == 'Tls13': eq('HKDF hash', vname(get('hkdf_algorithm')), h); return code
    eq('hash', vname(get('hmac_algorithm')), h)
    eq('key exchange', vname(get('kx')), 'ECDHE')
    sg = get('sign')
    if sg.op == 'arr':
        names = [vname(x) for x in sg.a]
        if None in names: ctx.unk(key + '.signatures', 'not evaluated')
        else:
            fam = set(n for n in SCHEME_SIGN if SCHEME_SIGN[n][0] == ('RSA' if '_RSA_' in code else 'ECDSA'))
            alien = [n for n in names if n not in fam]; miss = [n for n in (sign or []) if n not in names]
            if alien: ctx.bad(key + '.signatures', 'suite %s: accepts signatures of another family: %s' % (code, alien), loc)
            elif miss: ctx.bad(key + '.signatures', 'suite %s: does not accept %s' % (code, miss), loc)
            else: ctx.ok(key + '.signatures')
    else: ctx.unk(key + '.signatures', 'not evaluated')
    for f_, w in (('fixed_iv_len', iv), ('explicit_nonce_len', nonce)):
        x = get(f_); eq(f_, x.a[0] if x.op == 'int' else None, w)
    return code

def T19(ctx):
    """Every suite constant evaluated at compile time against the standard's table; the offered lists; each compatibility decision as an
    exact function of its arguments, for arbitrary lists of suites and schemes."""
    consts = {}
    for n in sorted(SUITE):
        f = ctx.fn('suites::%s::%s' % (SUITE[n][0].lower(), n))
        if f is None: continue
        s = ctx.summ(f, args=[])
        c = suite_entry(ctx, 'T19.suite.' + n, s.ret, n, s.loc)
        if c: consts[c] = s.ret
    for n in ('ALL_CIPHER_SUITES', 'DEFAULT_CIPHER_SUITES'):
        f = ctx.fn('suites::' + n)
        if f is None: continue
        s = ctx.summ(f, args=[])
        if s.ret.op != 'arr': ctx.unk('T19.' + n, 'list not evaluated'); continue
        got = [suite_entry(ctx, 'T19.%s.%d' % (n, i), x, None, s.loc) for i, x in enumerate(s.ret.a)]
        want = {'TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256', 'TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256'}
        if None in got: ctx.unk('T19.' + n, 'list not evaluated')
        elif set(got) != want or len(got) != len(want): ctx.bad('T19.' + n, 'the suites offered are %s, the MPC record layer supports exactly %s' % (got, sorted(want)), s.loc)
        else: ctx.ok('T19.' + n)
    # hash algorithms
    f = ctx.fn('suites::HashAlgorithm::output_len')
    if f:
        s = ctx.summ(f)
        for v, n in HASHLEN.items(): ctx.value('T19.output_len.' + v, s.ret, I(n), 'output length of ' + v, s.loc, care=c_is(s.args[0], SU + 'HashAlgorithm', v))
    f = ctx.fn('suites::HKDFAlgorithm::hash_algorithm')
    if f:
        s = ctx.summ(f)
        for v in ('SHA1', 'SHA256', 'SHA384', 'SHA512'): ctx.value('T19.hkdf.' + v, s.ret, agg(SU + 'HashAlgorithm', v, [], []), 'hash of the HKDF', s.loc, care=c_is(s.args[0], SU + 'HKDFAlgorithm', v))
    # decomposition of signature schemes
    for m, adt, k in (('sign', EN + 'SignatureAlgorithm', 0), ):
        f = ctx.method('tls_core::msgs::handshake::DecomposedSignatureScheme', SSE, m, False)
        if f is None: ctx.unk('T19.scheme.' + m, 'not found'); continue
        s = ctx.summ(f)
        for n, t in SCHEME_SIGN.items():
            if n in ('ED25519', 'ED448', 'ECDSA_SHA1_Legacy'):      # left out of the TLS 1.2 negotiation; must not pass for RSA
                ctx.same('T19.scheme.%s.%s' % (m, n), AND(c_is(s.args[0], SSE, n), c_is(s.ret, adt, 'RSA')), 0, 'the scheme is no RSA scheme', s.loc)
                continue
            ctx.value('T19.scheme.%s.%s' % (m, n), s.ret, agg(adt, t[k], [], []), 'signature algorithm of a scheme', s.loc, care=c_is(s.args[0], SSE, n))
    f = ctx.fn('msgs::handshake::DecomposedSignatureScheme::make', False) or next((i for i in ctx.db.fns if norm(i).endswith('DecomposedSignatureScheme>::make')), None)
    if f:
        for alg in ('RSA', 'ECDSA'):
            for h in ('SHA1', 'SHA256', 'SHA384', 'SHA512'):
                s = ctx.summ(f, args=[agg(EN + 'SignatureAlgorithm', alg, [], []), agg(EN + 'HashAlgorithm', h, [], [])])
                want = {('RSA', x): 'RSA_PKCS1_' + x for x in ('SHA1', 'SHA256', 'SHA384', 'SHA512')}
                want.update({('ECDSA', 'SHA256'): 'ECDSA_NISTP256_SHA256', ('ECDSA', 'SHA384'): 'ECDSA_NISTP384_SHA384', ('ECDSA', 'SHA512'): 'ECDSA_NISTP521_SHA512'})
                if (alg, h) in want: ctx.value('T19.scheme.make.%s.%s' % (alg, h), s.ret, agg(SSE, want[(alg, h)], [], []), 'scheme of an algorithm and a hash', s.loc)
    # simple accessors
    f = ctx.fn('suites::SupportedCipherSuite::suite')
    if f:
        s = ctx.summ(f); x = s.args[0]
        for v in ('Tls12', 'Tls13'): ctx.value('T19.suite().' + v, s.ret, fld(x, v + ':0.common.suite'), 'identifier of the suite', s.loc, care=c_is(x, SU + 'SupportedCipherSuite', v))
    f = ctx.fn('suites::SupportedCipherSuite::version')
    if f:
        s = ctx.summ(f); x = s.args[0]
        for v, w in (('Tls12', 'TLSv1_2'), ('Tls13', 'TLSv1_3')): ctx.value('T19.version.' + v, fld(s.ret, 'version'), agg(EN + 'ProtocolVersion', w, [], []), 'version of the suite', s.loc, care=c_is(x, SU + 'SupportedCipherSuite', v))
    f = ctx.fn('suites::SupportedCipherSuite::tls13')
    if f:
        s = ctx.summ(f); x = s.args[0]
        ctx.same('T19.tls13', okcond(s), c_is(x, SU + 'SupportedCipherSuite', 'Tls13'), 'a TLS 1.3 suite iff it is one', s.loc)
        ctx.value('T19.tls13.value', okval(s), fld(x, 'Tls13:0'), 'the suite itself', s.loc)
    hk = 'suites::HKDFAlgorithm::hash_algorithm'
    f = ctx.fn('suites::SupportedCipherSuite::hash_algorithm')
    if f:
        s = ctx.summ(f); x = s.args[0]
        ctx.value('T19.hash_algorithm.12', s.ret, fld(x, 'Tls12:0.hmac_algorithm'), 'hash of a TLS 1.2 suite', s.loc, care=c_is(x, SU + 'SupportedCipherSuite', 'Tls12'))
        r = ret(ctx, hk, fld(x, 'Tls13:0.hkdf_algorithm'))
        if r is not None: ctx.value('T19.hash_algorithm.13', s.ret, r, 'hash of a TLS 1.3 suite', s.loc, care=c_is(x, SU + 'SupportedCipherSuite', 'Tls13'))
    f = ctx.fn('suites::tls12::Tls12CipherSuite::hash_algorithm')
    if f: s = ctx.summ(f); ctx.value('T19.tls12.hash_algorithm', s.ret, fld(s.args[0], 'hmac_algorithm'), 'hash of the suite', s.loc)
    for v in ('tls12::Tls12CipherSuite', 'tls13::Tls13CipherSuite'):
        f = ctx.method('core::cmp::PartialEq', SU + v, 'eq', False)
        if f:
            s = ctx.summ(f); a, b = s.args
            ctx.same('T19.eq.' + v, cond(s.ret), eqv(ctx, CSE, fld(a, 'common.suite'), fld(b, 'common.suite')), 'suites are equal iff their identifiers are', s.loc)
    # decisions
    def suite_of(x): return ret(ctx, 'suites::SupportedCipherSuite::suite', x)
    def usable(x, alg):
        sg = fld(x, 'Tls12:0.sign'); el = V.elem(sg)
        m = ctx.method('tls_core::msgs::handshake::DecomposedSignatureScheme', SSE, 'sign')
        if m is None: return None
        w = ctx.summ(m, args=[el]).ret
        return OR(c_is(x, SU + 'SupportedCipherSuite', 'Tls13'), exists(sg, eqv(ctx, EN + 'SignatureAlgorithm', w, alg)))
    f = ctx.fn('suites::SupportedCipherSuite::usable_for_signature_algorithm')
    if f:
        s = ctx.summ(f); u = usable(*s.args)
        if u is not None: ctx.same('T19.usable_for_signature_algorithm', cond(s.ret), u, 'usable iff TLS 1.3 or one of its schemes uses the algorithm', s.loc)
    f = ctx.fn('suites::compatible_sigscheme_for_suites')
    m = ctx.method('tls_core::msgs::handshake::DecomposedSignatureScheme', SSE, 'sign')
    if f and m:
        s = ctx.summ(f); X = s.args[1]; el = V.elem(X)
        u = usable(el, ctx.summ(m, args=[s.args[0]]).ret)
        ctx.same('T19.compatible_sigscheme_for_suites', cond(s.ret), exists(X, u), 'compatible iff some suite is usable for the scheme', s.loc)
    def filtered(nm, pred, X=lambda s: s.args[0], msg=''):
        f = ctx.fn(nm)
        if f is None: return
        s = ctx.summ(f); x = X(s)
        ctx.value('T19.' + nm.split('::')[-1], s.ret, T('coll', T('filter', x, Bt(pred(s, V.elem(x)))), V.elem(x)), msg, s.loc)
    filtered('suites::reduce_given_sigalg', lambda s, e: usable(e, s.args[1]), msg='keeps exactly the suites usable for the algorithm')
    filtered('suites::reduce_given_version', lambda s, e: eqv(ctx, EN + 'ProtocolVersion', fld(ret(ctx, 'suites::SupportedCipherSuite::version', e), 'version'), s.args[1]), msg='keeps exactly the suites of the version')
    filtered('suites::tls12::Tls12CipherSuite::resolve_sig_schemes', lambda s, e: exists(s.args[1], eqv(ctx, SSE, V.elem(s.args[1]), e)), lambda s: fld(s.args[0], 'sign'), 'keeps exactly the schemes of the suite that were offered, in the order of the suite')
    for nm, a, b in (('client', 0, 1), ('server', 1, 0)):
        f = ctx.fn('suites::choose_ciphersuite_preferring_' + nm)
        if f is None: continue
        s = ctx.summ(f); C, S = s.args
        q = eqv(ctx, CSE, V.elem(C), suite_of(V.elem(S)))
        outer, inner = (C, S) if nm == 'client' else (S, C)
        ctx.same('T19.choose.' + nm, okcond(s), exists(outer, exists(inner, q)), 'the first suite in the order of the %s that both sides have' % nm, s.loc)
        ctx.value('T19.choose.%s.value' % nm, okval(s), V.elem(S), 'the suite chosen is one of the supported ones', s.loc)
    small_T19(ctx, consts)
    f = ctx.fn('suites::tls13::Tls13CipherSuite::can_resume_from')
    if f:
        s = ctx.summ(f); a, b = s.args
        ha, hb = ret(ctx, hk, fld(a, 'hkdf_algorithm')), ret(ctx, hk, fld(b, 'hkdf_algorithm'))
        ctx.same('T19.can_resume_from', okcond(s), eqv(ctx, SU + 'HashAlgorithm', ha, hb), 'a session is resumed only with a suite of the same hash', s.loc)
        ctx.value('T19.can_resume_from.value', okval(s), b, 'the session resumed is the previous one', s.loc)
    for im in ctx.db.bytrait.get('core::convert::From', []):
        if im['args'][0][:2] == ('adt', SU + 'SupportedCipherSuite'):
            f = dict(im['items']).get('from'); t = im['args'][1]
            v = 'Tls12' if 'Tls12' in tshow(t) else 'Tls13'
            s = ctx.summ(f); ctx.value('T19.from.' + v, s.ret, agg(SU + 'SupportedCipherSuite', v, ['0'], [s.args[0]]), 'conversion keeps the suite', s.loc)
    f = ctx.fn('suites::tls12::DOWNGRADE_SENTINEL')
    if f: s = ctx.summ(f, args=[]); ctx.value('T19.DOWNGRADE_SENTINEL', s.ret, T('arr', *[I(x) for x in bytes.fromhex('444f574e47524401')]), 'RFC 8446 4.1.3: downgrade to TLS 1.2', s.loc)

# ---------------------------------------------------------------- T20
def hmac_hook(eng, fr, np, f, env, args, st_, reach, ln, ta):
    """HMAC as an uninterpreted function of key and concatenated input"""
    m = np.split('::')[-1]
    if m in ('chunks_mut', 'chunks_exact_mut', 'rchunks_mut'):
        s2 = dict(st_); v = eng.val(st_, args[0])
        r = V.T('chunks', v, eng.val(st_, args[1]), *([] if m == 'chunks_mut' else [T('str', 'other')]))
        eng.write(s2, eng.deref(s2, args[0]), T('inblocks', v))
        return (1, r, s2)
    if '::Mac::' not in np and '::Update::' not in np and '::KeyInit::' not in np and '::FixedOutput::' not in np and '::CtOutput' not in np: return None
    if m in ('new_from_slice', 'new'):
        k = eng.val(st_, args[0])
        ty = tshow(ta[0]) if ta else '?'
        h = T('hmac', k, T('seq'), ty)
        if m == 'new': return (1, h, st_)
        c = bvar(T('keyok', k))
        return [(c, agg(V.RES, 'Ok', ['0'], [h]), st_), (NOT(c), agg(V.RES, 'Err', ['0'], [T('keyerr')]), st_)]
    if m in ('update', 'chain_update', 'chain'):
        h = eng.val(st_, args[0]); d = eng.val(st_, args[1])
        def up(h):
            if h.op == 'hmac': return T('hmac', h.a[0], V.mkseq(list(segs(h.a[1])) + [T('s', V.unseq(d) if d.op == 'seq' else d)]), *h.a[2:])
            return T('hmacup', h, d)
        r = V.choice([(c, up(x)) for c, x in alts(h)])
        if m == 'update':
            s2 = dict(st_); eng.write(s2, eng.deref(s2, args[0]), r)
            return (1, UNIT, s2)
        return (1, r, st_)
    if m in ('finalize', 'finalize_fixed'):
        return (1, T('mac', eng.val(st_, args[0])), st_)
    if m == 'into_bytes': return (1, eng.val(st_, args[0]), st_)
    return None
def segs(t): return t.a if t.op == 'seq' else ([T('s', t)])
def hm(k, ty, *parts):
    return T('mac', T('hmac', k, V.mkseq([T('s', p) for p in parts]), ty))
def resolve_hm(t, m):
    """substitute loop variables and redo the pending updates"""
    t = V.subst(t, m)
    def go(x, memo={}):
        if x.op == 'hmacup':
            h = go(x.a[0]); d = go(x.a[1])
            if h.op == 'hmac': return T('hmac', h.a[0], V.mkseq(list(segs(h.a[1])) + [T('s', d)]), *h.a[2:])
            return T('hmacup', h, d)
        if x.op in ('mac', 'hmac', 'e', 's', 'seq'):
            na = tuple(go(y) if isinstance(y, Term) else y for y in x.a)
            if x.op == 'seq': return V.mkseq(list(na))
            return T(x.op, *na)
        return x
    return go(t)

def T20(ctx):
    """make_tls12_aad and join_randoms byte by byte; the PRF by induction over its output blocks, with HMAC uninterpreted: block i is
    HMAC(secret, A(i) | label | seed) cut to the block, A(1) = HMAC(secret, label | seed), A(i+1) = HMAC(secret, A(i))."""
    f = ctx.fn('cipher::make_tls12_aad')
    if f:
        s = ctx.summ(f); q, ty, ve, n = s.args
        t8, v16 = ret(ctx, 'msgs::enums::ContentType::get_u8', ty), ret(ctx, 'msgs::enums::ProtocolVersion::get_u16', ve)
        r = s.ret
        at = lambda t, i: V.proj(t, ('i', I(i)))
        nm = ['sequence number'] * 8 + ['content type'] + ['version'] * 2 + ['length'] * 2
        for i in range(13): ctx.value('T20.aad.%d' % i, at(V.unseq(r) if r.op == 'seq' else r, i), aad_byte(i, q, t8, v16, n), 'byte %d of the additional data: %s' % (i, nm[i]), s.loc)
        ctx.same('T20.aad.len', V.c_eq(length(r), I(13)), 1, '13 bytes of additional data', s.loc)
    f = ctx.fn('suites::tls12::join_randoms')
    if f:
        s = ctx.summ(f); a, b = s.args
        at = lambda t, i: V.proj(t, ('i', I(i)))
        r = V.unseq(s.ret) if s.ret.op == 'seq' else s.ret
        for i in range(64): ctx.value('T20.join_randoms.%d' % i, at(r, i), at(a, i) if i < 32 else at(b, i - 32), 'first random, then second', s.loc)
    prf(ctx)
def aad_byte(i, q, t8, v16, n):
    if i < 8: return V.proj(V.mk_be(64, q), ('i', I(i)))
    if i == 8: return t8
    if i < 11: return V.proj(V.mk_be(16, v16), ('i', I(i - 9)))
    return V.proj(V.mk_be(16, T('trunc', 16, n)), ('i', I(i - 11)))
def writes(s, x):
    """x is (or may be) written: it is handed to some call"""
    return any(contains(t, lambda u: u is x) for e in s.events if e.kind == 'call' for t in e.args if hasattr(t, 'op'))
def prf(ctx):
    f = ctx.fn('prf::prf')
    if f is None: return
    s = ctx.summ(f, hook=hmac_hook)
    out, secret, label, seed = s.args
    key = 'T20.prf'
    ctx.require(key + '.error', errcond(s), NOT(bvar(T('keyok', secret))), 'fails only if the key is refused', s.loc)
    ctx.require(key + '.key', okcond(s), bvar(T('keyok', secret)), 'the key is the secret', s.loc)
    L = [l for l in s.engine.loops.values() if l['over'] is not None and l['over'].op == 'chunks']
    if len(L) != 1: ctx.unk(key + '.loop', 'the loop over the output blocks was not recognised'); return
    L = L[0]
    ctx.state = set(L['init'])
    if len(L['over'].a) > 2: ctx.bad(key + '.block', 'a last block shorter than the hash is not written', s.loc); return
    if L['over'].a[0] is not out: ctx.unk(key + '.loop', 'iterates over %s' % show(L['over'])); return
    ctx.value(key + '.block', L['over'].a[1], I(32), 'output is produced in blocks of the hash length', s.loc)
    chunk = [lv for lv, i in L['init'].items() if i is V.elem(L['over'])]
    if not chunk and not writes(s, V.elem(L['over'])): ctx.bad(key + '.write', 'nothing is written to the output', s.loc); return
    if len(chunk) != 1: ctx.unk(key + '.write', 'the block written was not recognised'); return
    w = L['step'][chunk[0]]
    n = length(chunk[0])
    if w.op == 'slice' and w.a[0].op == 'mac': src = w.a[0]; lo, hi = w.a[1], w.a[2]
    elif w.op == 'mac': src = w; lo, hi = I(0), n
    else: ctx.unk(key + '.write', 'block written is ' + show(w)[:200]); return
    ctx.value(key + '.cut', lo, I(0), 'a short last block takes the first bytes', s.loc)
    ctx.value(key + '.cut.end', hi, n, 'a short last block takes exactly its length', s.loc)
    src = resolve_hm(src, {})
    h = src.a[0]
    if h.op != 'hmac': ctx.unk(key + '.write', 'block written is ' + show(src)[:200]); return
    ty = h.a[2]
    if 'Sha256' in ty: ctx.ok(key + '.hash')
    elif 'Sha' in ty or 'sha' in ty: ctx.bad(key + '.hash', 'the hash of the PRF is not SHA-256: ' + ty, s.loc)
    else: ctx.unk(key + '.hash', 'hash of ' + ty)
    ctx.value(key + '.write.key', h.a[0], secret, 'each block is keyed with the secret', s.loc)
    sg = segs(h.a[1])
    want = V.mkseq([T('s', label), T('s', seed)])
    if len(sg) < 1 or V.mkseq(list(sg[1:])) is not want:
        ctx.value(key + '.write', V.mkseq(list(sg[1:])), want, 'each block is HMAC over A(i), label and seed', s.loc); return
    ctx.ok(key + '.write')
    A_ = sg[0].a[0]
    first = resolve_hm(A_, L['init']); nxt = resolve_hm(A_, L['step'])
    ctx.value(key + '.A1', first, hm(secret, ty, label, seed), 'A(1) is HMAC(secret, label | seed)', s.loc)
    ctx.value(key + '.Anext', nxt, resolve_hm(hm(secret, ty, A_), {}), 'A(i+1) is HMAC(secret, A(i))', s.loc)

# ---------------------------------------------------------------- T25
def T25(ctx):
    """Version tables evaluated; EnabledVersions::new as a fold over the configured list, contains as a function of the result."""
    PV = EN + 'ProtocolVersion'
    for n, v in (('TLS12', 'TLSv1_2'), ('TLS13', 'TLSv1_3')):
        f = ctx.fn('versions::' + n)
        if f: s = ctx.summ(f, args=[]); ctx.value('T25.' + n, fld(s.ret, 'version'), agg(PV, v, [], []), 'the constant is that version', s.loc)
    for n in ('ALL_VERSIONS', 'DEFAULT_VERSIONS'):
        f = ctx.fn('versions::' + n)
        if f is None: continue
        s = ctx.summ(f, args=[])
        if s.ret.op != 'arr': ctx.unk('T25.' + n, 'list not evaluated'); continue
        got = [vname(fld(x, 'version')) for x in s.ret.a]
        if None in got: ctx.unk('T25.' + n, 'list not evaluated')
        elif set(got) != {'TLSv1_2'}: ctx.bad('T25.' + n, 'the versions enabled are %s instead of TLS 1.2 only' % got, s.loc)
        else: ctx.ok('T25.' + n)
    new, con = ctx.fn('versions::EnabledVersions::new'), ctx.fn('versions::EnabledVersions::contains')
    if new is None or con is None: return
    s = ctx.summ(new); X = s.args[0]; el = V.elem(X)
    r = s.ret
    # new followed by contains, for each version asked about and each list: by induction over the list (fold)
    if r.op == 'fold':
        src, init, step = r.a[0], r.a[1], r.a[2]
        ok = src is X
        accs = [t for t in subterms(step) if t.op == 'acc']
        if not ok or len(accs) != 1: ctx.unk('T25.new', 'fold not recognised: ' + show(r)[:200]); return
        acc = accs[0]
    else:
        q = r
        for v in enumv(ctx, PV):
            c = ctx.summ(con, args=[r, agg(PV, v, ['0'], [T('arg', 'code')]) if v == 'Unknown' else agg(PV, v, [], [])])
            ctx.same('T25.contains.' + v, cond(c.ret), exists(X, c_is(fld(el, 'version'), PV, v)) if v in ('TLSv1_2', 'TLSv1_3') else 0, 'enabled iff configured and supported', s.loc)
        return
    # which version a field can hold, inferred: the largest inductive set of facts "a filled field holds version u"
    adt = ctx.db.adts.get(r.a[1].a[0] if init.op == 'agg' else '')
    slots = [n for n, t in zip(init.a[2].split(','), init.a[3:]) if t is NONE or t.op == 'agg' and t.a[0] == V.OPT] if init.op == 'agg' and init.a[2] else []
    facts = {(n, u) for n in slots for u in enumv(ctx, PV)}
    broken = lambda st_, n, u: AND(is_some(fld(st_, n)), NOT(c_is(fld(somev(fld(st_, n)), 'version'), PV, u)))
    sat = lambda c: c != 0 and AND(c, valid2(c)) != 0
    inv = lambda: ANDS(1, *[NOT(broken(acc, n, u)) for n, u in facts])
    facts = {x for x in facts if not sat(broken(init, *x))}
    while True:
        i = inv(); lost = {x for x in facts if sat(AND(i, broken(step, *x)))}
        if not lost: break
        facts -= lost
    inv = inv()
    for v in enumv(ctx, PV):
        arg = agg(PV, v, ['0'], [T('arg', 'code')]) if v == 'Unknown' else agg(PV, v, [], [])
        has = lambda st_: cond(ctx.summ(con, args=[st_, arg]).ret)
        ctx.same('T25.contains.%s.empty' % v, has(init), 0, 'nothing is enabled by an empty list', s.loc)
        before = has(acc)
        after = has(step)
        want = OR(before, c_is(fld(el, 'version'), PV, v)) if v in ('TLSv1_2', 'TLSv1_3') else before
        ctx.same('T25.contains.%s.step' % v, after, want, 'a version is enabled iff it was before or is the one listed', s.loc, care=inv, vocab=ctx.vocab(before))
        if v not in ('TLSv1_2', 'TLSv1_3'): ctx.same('T25.contains.%s.unsupported' % v, before, 0, 'an unsupported version is never enabled', s.loc, care=inv)
def enumv(ctx, adt): return [v[0] for v in ctx.db.adts[adt]['variants']]

# ---------------------------------------------------------------- T26
def T26(ctx):
    """The encoding a PSK binder signs = the encoding of the hello cut by exactly the encoded length of its binder list, and that list
    is the last thing the hello encodes; placement check and binder replacement as functions of the last extension."""
    CE = H + 'ClientExtension'
    f = ctx.fn('msgs::handshake::ClientHelloPayload::check_psk_ext_is_last')
    if f:
        s = ctx.summ(f); X = fld(s.args[0], 'extensions')
        last = V.proj(X, ('i', V.sub(length(X), I(1))))
        ctx.same('T26.last', cond(s.ret), AND(nonempty(X), typeis(ctx, 'ClientExtension', last, 'PreSharedKey')), 'properly placed iff it is the last extension', s.loc)
    f = ctx.fn('msgs::handshake::ClientHelloPayload::set_psk_binder')
    if f:
        s = ctx.summ(f); me = s.args[0]; X = fld(me, 'extensions'); n1 = V.sub(length(X), I(1))
        last = V.proj(X, ('i', n1))
        c = AND(nonempty(X), c_is(last, CE, 'PresharedKey'))
        fin = s.final(me)
        ctx.value('T26.set_binder.other', fin, me, 'a hello without a PSK as its last extension is left alone', s.loc, care=NOT(c))
        FX = fld(fin, 'extensions')
        nl = V.proj(FX, ('i', n1))
        ctx.same('T26.set_binder.kept', AND(c, NOT(c_is(nl, CE, 'PresharedKey'))), 0, 'the last extension remains the PSK offer', s.loc)
        b = fld(nl, 'PresharedKey:0.binders')
        new = V.proj(b, ('i', I(0)))
        A = s.args[1]
        got = fld(new, '0')
        if A in subterms(got): ctx.ok('T26.set_binder.value')
        else: ctx.value('T26.set_binder.value', got, A, 'the first binder is the one given', s.loc, care=AND(c, nonempty(fld(last, 'PresharedKey:0.binders'))))
        ctx.value('T26.set_binder.identities', fld(nl, 'PresharedKey:0.identities'), fld(last, 'PresharedKey:0.identities'), 'the identities are not changed', s.loc, care=c)
    # what is signed
    HMP = H + 'HandshakeMessagePayload'
    f = ctx.fn('msgs::handshake::HandshakeMessagePayload::get_encoding_for_binder_signing')
    if f:
        eh = enc_hook(f)
        def hook(eng, fr, np, fi, env, args, st_, reach, ln, ta):
            if np.endswith('Codec::get_encoding'):
                return (1, T('enc', tyname(ta[0]), eng.deepval(st_, eng.val(st_, args[0]))), st_)
            return eh(eng, fr, np, fi, env, args, st_, reach, ln, ta)
        s = ctx.summ(f, hook=hook); me = s.args[0]
        enc = T('enc', HMP, me)
        CHP = H + 'HandshakePayload'
        ch = fld(me, 'payload.ClientHello:0'); X = fld(ch, 'extensions'); last = V.proj(X, ('i', V.sub(length(X), I(1))))
        c = ANDS(c_is(fld(me, 'payload'), CHP, 'ClientHello'), nonempty(X), c_is(last, CE, 'PresharedKey'))
        b = fld(last, 'PresharedKey:0.binders')
        bt = [t for t in subterms(s.ret) if t.op == 'enc' and t.a[1] is b]
        if not bt: ctx.value('T26.signed', s.ret, V.mkslice(enc, I(0), V.sub(length(enc), length(T('enc', 'binders', b)))), 'the hello without its binder list is signed', s.loc, care=c)
        else:
            ctx.value('T26.signed', strip(s.ret), V.mkslice(enc, I(0), V.sub(length(enc), length(bt[0]))), 'the hello without its binder list is signed', s.loc, care=c)
        first = V.proj(X, ('i', I(0)))
        if contains(s.ret, lambda t: t is first) and not contains(s.ret, lambda t: t is last): ctx.bad('T26.signed.last', 'the signed part is cut by the first extension instead of the last', s.loc)
        r = strip(s.ret)
        if r.op == 'slice' and r.a[0] is enc and r.a[1] is I(0):
            cut = V.sub(length(enc), r.a[2])      # how much is left out
            ctx.value('T26.signed.other', cut, I(0), 'any other message is signed whole', s.loc, care=NOT(c))
        else: ctx.value('T26.signed.other', r, enc, 'any other message is signed whole', s.loc, care=NOT(c))
        # the binder list is the tail of the encoding
        oenc = ctx.method(CODEC, H + 'PresharedKeyOffer', 'encode')
        if oenc and bt:
            e, so = encode(ctx, oenc, T('arg', 'offer'))
            ps = V.as_seq(e) if e is not None else []
            w = T('enc', bt[0].a[0], fld(T('arg', 'offer'), 'binders'))
            if e is None or not ps: ctx.unk('T26.tail.offer', 'encoding of the offer not determined')
            else: ctx.value('T26.tail.offer', ps[-1].a[0], w, 'the binder list ends the PSK offer', so.loc)
        xenc = ctx.method(CODEC, CE, 'encode')
        if xenc:
            v = agg(CE, 'PresharedKey', ['0'], [T('arg', 'offer')])
            e, so = encode(ctx, xenc, v)
            ps = V.as_seq(e) if e is not None else []
            if not ps: ctx.unk('T26.tail.extension', 'encoding of the extension not determined')
            else: ctx.value('T26.tail.extension', ps[-1].a[0], T('enc', H + 'PresharedKeyOffer', T('arg', 'offer')), 'the offer ends the extension', so.loc)
        henc = ctx.method(CODEC, H + 'ClientHelloPayload', 'encode')
        if henc:
            v = T('arg', 'hello')
            e, so = encode(ctx, henc, v)
            if e is None: ctx.unk('T26.tail.hello', 'encoding of the hello not determined')
            else:
                for cc, x in alts(e):
                    cc = AND(cc, nonempty(fld(v, 'extensions')))
                    if AND(cc, valid2(cc)) == 0: continue
                    ps = V.as_seq(x)
                    ex = fld(v, 'extensions')
                    if not ps: ctx.unk('T26.tail.hello', 'encoding of the hello not determined'); continue
                    t = ps[-1].a[0]
                    if any(y is ex for y in subterms(t)): ctx.ok('T26.tail.hello')
                    elif t.op in ('enc', 'be', 'flat', 'fld'): ctx.bad('T26.tail.hello', 'the hello ends with %s instead of the extensions' % show(t)[:200], so.loc)
                    else: ctx.unk('T26.tail.hello', 'the hello ends with %s' % show(t)[:200])
def strip(t):
    """a sequence made of one piece is that piece"""
    if t.op == 'choice': return V.choice([(c, strip(x)) for c, x in alts(t)])
    return V.unseq(t) if t.op == 'seq' else t
