"""Certificate and handshake-signature verification (tls-core/src/verify.rs, handshake.rs): T01-T06"""
from rules import *
from mirval import *
import mirval as V

RA = 'webpki::ring_algs::'
ALGS = ['ECDSA_P256_SHA256', 'ECDSA_P256_SHA384', 'ECDSA_P384_SHA256', 'ECDSA_P384_SHA384', 'ED25519', 'RSA_PKCS1_2048_8192_SHA256', 'RSA_PKCS1_2048_8192_SHA384',
        'RSA_PKCS1_2048_8192_SHA512', 'RSA_PSS_2048_8192_SHA256_LEGACY_KEY', 'RSA_PSS_2048_8192_SHA384_LEGACY_KEY', 'RSA_PSS_2048_8192_SHA512_LEGACY_KEY']
# RFC 5246 / RFC 8422: in TLS 1.2 the scheme fixes hash and key type, not the curve
TLS12 = {'ECDSA_NISTP256_SHA256': ['ECDSA_P256_SHA256', 'ECDSA_P384_SHA256'], 'ECDSA_NISTP384_SHA384': ['ECDSA_P256_SHA384', 'ECDSA_P384_SHA384'], 'ED25519': ['ED25519'],
         'RSA_PKCS1_SHA256': ['RSA_PKCS1_2048_8192_SHA256'], 'RSA_PKCS1_SHA384': ['RSA_PKCS1_2048_8192_SHA384'], 'RSA_PKCS1_SHA512': ['RSA_PKCS1_2048_8192_SHA512'],
         'RSA_PSS_SHA256': ['RSA_PSS_2048_8192_SHA256_LEGACY_KEY'], 'RSA_PSS_SHA384': ['RSA_PSS_2048_8192_SHA384_LEGACY_KEY'], 'RSA_PSS_SHA512': ['RSA_PSS_2048_8192_SHA512_LEGACY_KEY']}
# RFC 8446 4.2.3: the curve is fixed too, PKCS#1 v1.5 is not allowed
TLS13 = {'ECDSA_NISTP256_SHA256': ['ECDSA_P256_SHA256'], 'ECDSA_NISTP384_SHA384': ['ECDSA_P384_SHA384'], 'ED25519': ['ED25519'],
         'RSA_PSS_SHA256': ['RSA_PSS_2048_8192_SHA256_LEGACY_KEY'], 'RSA_PSS_SHA384': ['RSA_PSS_2048_8192_SHA384_LEGACY_KEY'], 'RSA_PSS_SHA512': ['RSA_PSS_2048_8192_SHA512_LEGACY_KEY']}
# AlgorithmIdentifiers of webpki's ring algorithms (webpki ring_algs.rs): (public key, signature)
ALGID = {a: ('ECDSA_' + a.split('_')[1] if a.startswith('ECDSA') else 'RSA_ENCRYPTION' if a.startswith('RSA') else a,
             'ECDSA_' + a.split('_')[2] if a.startswith('ECDSA') else '_'.join(x for x in a.split('_') if not x.isdigit()).replace('_LEGACY_KEY', '') if a.startswith('RSA') else a) for a in ALGS}
SS = 'tls_core::msgs::enums::SignatureScheme'
DSS = 'tls_core::msgs::handshake::DigitallySignedStruct'
EEC = r'EndEntityCert.*::'

def alg_hook(eng, fr, np, f, env, args, st, reach, ln, targs):
    """algorithm identifiers of the webpki algorithms are known constants"""
    m = re.search(r'SignatureVerificationAlgorithm::(public_key_alg_id|signature_alg_id)$', np)
    if m and args:
        a = eng.val(st, args[0])
        def one(x):
            if x.op == 'static' and x.a[0].startswith(RA) and x.a[0][len(RA):] in ALGID:
                return T('str', 'algid:' + ALGID[x.a[0][len(RA):]][0 if m.group(1)[0] == 'p' else 1])
            return None
        if a.op == 'choice':
            al = [(c, one(x)) for c, x in alts(a)]
            if all(x is not None for _, x in al): return choice(al)
            return None
        return one(a)
    return None

def parsed(der): return lambda t: None

def T01(ctx):
    f = ctx.method('verify::ServerCertVerifier', 'verify::WebPkiVerifier', 'verify_server_cert')
    s = ctx.summ(f)
    if s is None: return
    slf, ee, inter, name, scts, ocsp, now = s.args
    okc = okcond(s)
    # 1. the end entity certificate that is checked is the one supplied
    C = need_call(ctx, 'T01.parse', s, okc, r'convert::TryFrom::try_from|EndEntityCert.*try_from', [fld(ee, '0')], 'the end-entity certificate must be parsed from the supplied certificate')
    if not C or not C.good: return
    cert = okv(C.good[0].res)
    # 2. time
    D = [e for e in ctx.events(s, r'SystemTime::duration_since$') if e.args[0] is now and e.args[1].op == 'const' and 'UNIX_EPOCH' in e.args[1].a[0]]
    if not D:
        ctx.bad('T01.time', 'the validation time is not derived from the supplied time', s.loc); return
    since = okv(D[0].res)
    ctx.require('T01.time', okc, is_ok(D[0].res), 'acceptance although the supplied time could not be converted', s.loc, strict=True)
    def utime(t):
        if t.op == 'call' and t.a[0].endswith('UnixTime::since_unix_epoch') and t.a[-1] is since: return None
        return ('bad', 'validation time %s is not the supplied time' % show(t)[:200])
    def usage(t):
        return None if t.op == 'call' and t.a[0].endswith('KeyUsage::server_auth') else ('bad', 'key usage %s is not server authentication' % show(t)[:200])
    def roots(t):
        r = fld(slf, 'roots.roots')
        return None if t is r else ctx.tdiff(t, r) or ('bad', 'trust anchors %s' % show(t)[:100])
    def algs(t):
        if t.op == 'static' and t.a[0].endswith('ALL_VERIFICATION_ALGS'): return None
        if t.op == 'arr' and t.a and all(x.op == 'static' and x.a[0].startswith(RA) for x in t.a): return None
        return ('bad', 'signature algorithms %s' % show(t)[:200])
    inters = T('coll', inter, fld(elem(inter), '0'))
    none = lambda t: None if t is NONE else ('unk', show(t)[:200])
    need_call(ctx, 'T01.chain', s, okc, EEC + 'verify_for_usage$', [cert, algs, roots, inters, utime, usage, none, none], 'the chain must verify for server authentication at the supplied time against the configured roots')
    need_call(ctx, 'T01.name', s, okc, EEC + 'verify_is_valid_for_subject_name$', [cert, fld(name, '0')], 'the certificate must be valid for the requested name')
    # 3. certificate transparency policy, exactly
    pol = fld(slf, 'ct_policy'); P = somev(pol)
    logs = fld(P, 'logs')
    live = is_ok(T('call', 'std::time::SystemTime::duration_since', '', fld(P, 'validation_deadline'), now))     # also what comparisons of times become
    dl = live > 1 and set(B.support(live)) & set(B.support(okc))
    sc = [e for e in ctx.events(s, r'sct::verify_sct$')]
    has = is_some(pol)
    if not dl:
        ctx.bad('T01.ct.deadline', 'the policy deadline is not compared with the supplied time', s.loc)
    skip = ORS(c_eq(length(logs), I(0)), NOT(live) if dl else 0)
    good = []
    millis = mul(T('call', 'core::time::Duration::as_secs', '', since), I(1000))
    secs = [e for e in ctx.events(s, r'Duration::as_secs$') if e.args[0] is since]
    if not sc:
        ctx.require('T01.ct', okc, OR(NOT(has), skip), 'acceptance without verifying any certificate timestamp although a policy is configured', s.loc, strict=True)
    for e in sc:
        sp = [fld(ee, '0'), elem(scts), mul(secs[0].res, I(1000)) if secs else None, logs]
        bad = None
        for i, (x, y) in enumerate(zip(e.args, sp)):
            if y is None: bad = ('bad', 'time'); break
            r = ctx.tdiff(x, y, e.cond)
            if r: bad = (r[0], 'argument %d of verify_sct: %s' % (i, r[1])); break
        if bad:
            (ctx.bad if bad[0] == 'bad' else lambda k, m, w: ctx.unk(k, m))('T01.ct.args', bad[1], s.loc); continue
        ctx.ok('T01.ct.args')
        fatal = [x for x in ctx.events(s, r'sct::Error::should_be_fatal$') if x.args[0] is errv(e.res)]
        # acceptance: no policy / not applicable / some timestamp verified (and none before it failed fatally) / none presented
        nofail = c_eq(length(scts), I(0))
        g = ORS(NOT(has), skip, is_ok(e.res), nofail)
        ctx.require('T01.ct', okc, g, 'acceptance although no certificate timestamp satisfied the policy', s.loc, strict=True)
        fat = ORS(*[AND(NOT(is_ok(e.res)), cond(x.res)) for x in fatal])
        if not fatal: ctx.bad('T01.ct.fatal', 'a fatal timestamp error does not end verification', s.loc)
        else:
            # the loop stops at the first timestamp that is valid or fatal
            stop = [v for v in B.support(okc) if V.ATOMS[v][0] == 'b' and V.ATOMS[v][1].op == 'all' and V.coll(V.ATOMS[v][1].a[0]) is V.coll(scts)]
            want = NOT(OR(is_ok(e.res), fat))
            for v in stop:
                ctx.same('T01.ct.fatal', V.ATOMS[v][1].a[1], want, 'a timestamp that is invalid for a fatal reason must end verification, and a valid one must satisfy it', s.loc)
            ctx.require('T01.ct.fatal2', okc, ORS(NOT(has), skip, NOT(fat), nofail, *[var(v) for v in stop]), 'acceptance after a fatal timestamp error', s.loc)
    # 4. construction keeps roots and policy
    n = ctx.fn('verify::WebPkiVerifier::new')
    s = ctx.summ(n)
    if s:
        ctx.value('T01.new.roots', fld(s.ret, 'roots'), s.args[0], 'the verifier must keep the given trust anchors', s.loc)
        ctx.value('T01.new.policy', fld(s.ret, 'ct_policy'), s.args[1], 'the verifier must keep the given policy', s.loc)
    n = ctx.fn('verify::CertificateTransparencyPolicy::new')
    s = ctx.summ(n)
    if s:
        ctx.value('T01.ctnew.logs', fld(s.ret, 'logs'), s.args[0], 'the policy must keep the given logs', s.loc)
        ctx.value('T01.ctnew.deadline', fld(s.ret, 'validation_deadline'), s.args[1], 'the policy must keep the given deadline', s.loc)

ENTRIES = [('verify::ServerCertVerifier::verify_tls12_signature', 12, 1, 2, 3), ('verify::ServerCertVerifier::verify_tls13_signature', 13, 1, 2, 3),
           ('verify::ClientCertVerifier::verify_tls12_signature', 12, 1, 2, 3), ('verify::ClientCertVerifier::verify_tls13_signature', 13, 1, 2, 3),
           ('verify::verify_sig_determine_alg', 12, 1, 0, 2)]
def sig_entries(ctx):
    """every public way to verify a handshake signature: default trait methods, overriding implementations, free function"""
    out = []
    for name, ver, m, c, d in ENTRIES:
        f = ctx.fn(name)
        if f: out.append((name, f, ver, m, c, d))
        tr, meth = name.rsplit('::', 1)
        for im in ctx.db.bytrait.get('tls_core::' + tr, []):
            for k, v in im['items']:
                if k == meth and v in ctx.db.fns: out.append((norm(v), v, ver, m, c, d))
    return out
def run_schemes(ctx):
    for name, f, ver, m, c, d in sig_entries(ctx):
        A = ctx.engine().symargs(ctx.db.fns[f])
        for sch, t in enum_values(ctx, SS, None):
            a = list(A)
            a[d] = restruct(ctx, DSS, A[d], scheme=t)
            if a[d] is None: return
            yield name, f, ver, (A[m], A[c], A[d]), sch, ctx.summ(f, args=a, hook=alg_hook)

def T02(ctx):
    for name, f, ver, (m, c, d), sch, s in run_schemes(ctx):
        table = TLS12 if ver == 12 else TLS13
        want = ['%s%s' % (RA, x) for x in table.get(sch, [])]
        tried = []; unknown = False
        for e in ctx.events(s, EEC + 'verify_signature$'):
            for cc, a in alts(e.args[1]):
                if AND(cc, e.cond) == 0: continue
                if a.op == 'static': tried.append(a.a[0])
                else: unknown = True
        key = 'T02.%s.%s' % (name, sch)
        okc = okcond(s)
        for t in tried:
            if t not in want: ctx.bad(key, '%s is verified with %s, which is not an algorithm of that scheme for TLS 1.%d' % (sch, t, ver - 10), s.loc)
        for w in want:
            if w not in tried and not unknown: ctx.bad(key, '%s is never verified with %s' % (sch, w), s.loc)
        if not want:
            ctx.require(key + '.reject', okc, 0, '%s must be rejected in TLS 1.%d' % (sch, ver - 10), s.loc, strict=True)
        elif okc == 0: ctx.bad(key, '%s can never be accepted' % sch, s.loc)
        if unknown: ctx.unk(key, 'an algorithm tried for %s could not be determined' % sch)
        else: ctx.ok(key)
    # the schemes offered are exactly the schemes that can be verified
    for n in ['verify::WebPkiVerifier::verification_schemes', 'verify::ServerCertVerifier::supported_verify_schemes', 'verify::ClientCertVerifier::supported_verify_schemes']:
        f = ctx.fn(n)
        s = ctx.summ(f)
        if not s: continue
        r = s.ret
        items = [x.a[0] for x in r.a if x.op == 'e'] if r.op == 'seq' else list(r.a) if r.op == 'arr' else None
        if items is None or any(x.op != 'agg' for x in items):
            ctx.unk('T02.offered.' + n, 'list not determined: %s' % show(r)[:200]); continue
        names = [x.a[1] for x in items]
        if sorted(names) != sorted(TLS12):
            ctx.bad('T02.offered.' + n, 'offered schemes %s are not exactly the verifiable schemes %s' % (sorted(names), sorted(TLS12)), s.loc)
        else: ctx.ok('T02.offered.' + n)
    for im in ctx.db.bytrait.get('tls_core::verify::ServerCertVerifier', []):
        for k, v in im['items']:
            if k == 'supported_verify_schemes': ctx.unk('T02.override', 'overridden in %s' % v)

def T03(ctx):
    for name, f, ver, (m, c, d), sch, s in run_schemes(ctx):
        table = TLS12 if ver == 12 else TLS13
        if sch not in table: continue
        okc = okcond(s)
        key = 'T03.%s.%s' % (name, sch)
        C = need_call(ctx, key + '.parse', s, okc, r'convert::TryFrom::try_from|EndEntityCert.*try_from', [fld(c, '0')], 'the key must come from the presented certificate')
        if not C or not C.good: continue
        cert = okv(C.good[0].res)
        W = Calls(ctx, s, EEC + 'verify_signature$', [cert, None, m, fld(d, 'sig.0')])
        for k, x, e in W.bad: ctx.bad(key + '.args', x, s.loc)
        for k, x, e in W.unk: ctx.unk(key + '.args', x)
        if W.bad or W.unk: continue
        ctx.ok(key + '.args')
        ctx.require(key + '.verified', okc, W.ok(), 'accepted although no signature verification succeeded', s.loc, strict=True)
        # a failure that is not "algorithm does not fit the key" is final
        for e in W.good:
            err = errv(e.res)
            mism = ORS(c_is(err, 'webpki::error::Error', 'UnsupportedSignatureAlgorithmForPublicKeyContext'), c_is(err, 'webpki::error::Error', 'UnsupportedSignatureAlgorithmForPublicKey'))
            final = AND(e.cond, AND(NOT(is_ok(e.res)), NOT(mism)))
            ctx.require(key + '.final', AND(okc, e.cond), NOT(final), 'accepted although %s failed for a reason other than a key-type mismatch' % show(e.args[1])[:100], s.loc, strict=True)
    # TLS 1.3 signed content (RFC 8446 4.4.3)
    for who in ('client', 'server'):
        f = ctx.fn('verify::construct_tls13_%s_verify_message' % who)
        s = ctx.summ(f)
        if not s: continue
        want = V.mkseq([T('s', T('rep', I(0x20), I(64))), T('s', T('bytes', b'TLS 1.3, %s CertificateVerify\0'.replace(b'%s', who.encode()).hex())), T('s', s.args[0])])
        ctx.value('T03.message.' + who, s.ret, want, 'the signed content must be 64 spaces, the %s context string and the transcript hash' % who, s.loc)

def T04(ctx):
    f = ctx.fn('verify::SignatureAlgorithm::from_alg')
    want = {a: a.replace('ECDSA_P', 'ECDSA_NISTP') for a in ALGS}
    if f:
        for a in ALGS:
            s = ctx.summ(f, args=[T('static', RA + a)], hook=alg_hook)
            r = s.ret
            if r.op == 'agg':
                if r.a[1] == want[a]: ctx.ok('T04.' + a)
                else: ctx.bad('T04.' + a, '%s is reported as %s' % (a, r.a[1]), s.loc)
            elif r.op == 'never': ctx.bad('T04.' + a, '%s has no report: the function does not return' % a, s.loc)
            else: ctx.unk('T04.' + a, show(r)[:300])
    # what verify_sig_determine_alg returns is the report for the algorithm whose verification succeeded
    f = ctx.fn('verify::verify_sig_determine_alg')
    if not f: return
    A = ctx.engine().symargs(ctx.db.fns[f])
    for sch, t in enum_values(ctx, SS, None):
        if sch not in TLS12: continue
        a = list(A); a[2] = restruct(ctx, DSS, A[2], scheme=t)
        if a[2] is None: return
        s = ctx.summ(f, args=a, hook=alg_hook)
        evs = [e for e in ctx.events(s, EEC + 'verify_signature$') if e.args[1].op == 'static']
        key = 'T04.report.' + sch
        if not evs: ctx.unk(key, 'no verification call with a known algorithm'); continue
        n = 0
        for c, r in alts(s.ret):
            for c2, v in (alts(r.a[3]) if r.op == 'agg' and r.a[1] == 'Ok' else []):
                cc = AND(c, c2)
                if cc == 0 or v.op != 'agg': continue
                src = [e for e in evs if want.get(e.args[1].a[0][len(RA):]) == v.a[1]]
                n += 1
                ctx.require(key, cc, ORS(*[AND(e.cond, is_ok(e.res)) for e in src]), '%s is reported although that algorithm did not verify the signature' % v.a[1], s.loc, strict=True)
        if not n: ctx.unk(key, 'no report found')

def T05(ctx):
    f = ctx.fn('handshake::HandshakeData::verify')
    s = ctx.summ(f)
    if not s: return
    slf, ver, time, name = s.args
    okc = okcond(s)
    chain = fld(slf, 'server_cert_details.cert_chain')
    ctx.require('T05.nonempty', okc, NOT(c_eq(length(chain), I(0))), 'accepted with an empty certificate chain', s.loc, strict=True)
    ee = proj(chain, ('i', I(0)))
    rest = V.mkslice(chain, I(1), length(chain))
    scts = fld(slf, 'server_cert_details.scts')
    def sct(t):
        t = V.coll(t)
        if t.op == 'map': body, base = t.a[1], t.a[0]
        else: body, base = None, t
        ok = False
        for c, b in alts(base):
            # presented timestamps, or nothing if none were presented
            if b is somev(scts): ok = True; continue
            if AND(c, is_some(scts)) == 0: continue
            return ('unk' if V.contains(b, lambda x: x.op not in TRANSPARENT) else 'bad', 'timestamps %s' % show(b)[:200])
        return None if ok else ('bad', 'the presented timestamps are not passed on')
    need_call(ctx, 'T05.cert', s, okc, r'ServerCertVerifier::verify_server_cert$', [ver, ee, rest, name, sct, fld(slf, 'server_cert_details.ocsp_response'), time],
              'the chain must be verified for the given name at the given time')
    msg = V.mkseq([T('s', fld(slf, 'client_random.0')), T('s', fld(slf, 'server_random.0')), T('s', fld(slf, 'server_kx_details.kx_params'))])
    need_call(ctx, 'T05.sig', s, okc, r'ServerCertVerifier::verify_tls12_signature$', [ver, msg, ee, fld(slf, 'server_kx_details.kx_sig')],
              'the key-exchange signature must verify over client random, server random and parameters under the end-entity certificate')
    # construction and accessors keep the recorded values apart
    for fn, fields in [('handshake::HandshakeData::new', ['server_cert_details', 'server_kx_details', 'client_random', 'server_random']),
                       ('cert::ServerCertDetails::new', ['cert_chain', 'ocsp_response', 'scts']), ('ke::ServerKxDetails::new', ['kx_params', 'kx_sig'])]:
        f = ctx.fn(fn); s = ctx.summ(f)
        if not s: continue
        if s.ret.op != 'agg': ctx.unk('T05.' + fn, show(s.ret)[:200]); continue
        for i, n in enumerate(fields): ctx.value('T05.%s.%s' % (fn, n), fld(s.ret, n), s.args[i], 'field %s must hold the value given for it' % n, s.loc)
    for fn, field in [('handshake::HandshakeData::server_cert_details', 'server_cert_details'), ('handshake::HandshakeData::server_kx_details', 'server_kx_details'),
                      ('handshake::HandshakeData::client_random', 'client_random'), ('handshake::HandshakeData::server_random', 'server_random'),
                      ('cert::ServerCertDetails::cert_chain', 'cert_chain'), ('cert::ServerCertDetails::ocsp_response', 'ocsp_response'), ('ke::ServerKxDetails::kx_params', 'kx_params'), ('ke::ServerKxDetails::kx_sig', 'kx_sig')]:
        f = ctx.fn(fn, required=False); s = ctx.summ(f)
        if s: ctx.value('T05.' + fn, s.ret, fld(s.args[0], field), 'accessor must return the field it names', s.loc)

TOKENS = {'tls_core::verify::HandshakeSignatureValid': [EEC + 'verify_signature$'],
          'tls_core::verify::ServerCertVerified': [EEC + 'verify_for_usage$', EEC + 'verify_is_valid_for_subject_name$'],
          'tls_core::verify::FinishedMessageVerified': []}
def T06(ctx):
    db = ctx.db
    for tok, need in TOKENS.items():
        a = db.adts.get(tok)
        if a is None:
            ctx.bad('anchor:' + tok, 'token type no longer exists (rule fails closed)', tok); continue
        fs = a['variants'][0][2] if a['variants'] else []
        if a['kind'] != 'struct' or not fs or any(x[2] == 'Public' for x in fs):
            ctx.bad('T06.private.' + tok, 'the token can be constructed outside its module (no private field)', tok)
        else: ctx.ok('T06.private.' + tok)
        for tr, ims in db.bytrait.items():
            for im in ims:
                t = im['args'][0] if im['args'] else None
                if t and t[0] == 'adt' and t[1] == tok and not re.search(r'fmt::Debug$|marker::|fmt::Display$|cmp::|hash::Hash$|Drop$', tr):
                    ctx.bad('T06.impl.%s.%s' % (tok, tr), 'the token implements %s, which can conjure it without verification' % tr, tok)
        # who builds it
        makers = set()
        for fid, fn in db.fns.items():
            for body in [fn] + fn.get('promoted', []):
                for b in body['blocks']:
                    for st in b['s']:
                        if st[0] == '=' and st[2][0] == 'agg' and mentions(st[2], tok): makers.add(fid)
        assertion = tok + '::assertion'
        callers = set()
        for fid, fn in db.fns.items():
            if calls(fn, assertion): callers.add(fid)
        ctx.anchors.append(assertion)
        for mfn in sorted(makers):
            if norm(mfn) != norm(assertion): callers.add(mfn)
        n = 0
        for cfn in sorted(callers):
            if norm(cfn).startswith(norm(tok) + '::'):
                if norm(cfn) != norm(assertion):
                    ctx.bad('T06.ctor.%s' % norm(cfn), 'another constructor of the token', norm(cfn))
                continue
            root = re.split(r'::\{closure', cfn)[0]
            if root not in db.fns: continue
            # a function reference (path only) outside a call is resolved inside its root function
            s = ctx.summ(root, hook=alg_hook)
            evs = [e for e in s.events if e.kind in ('inl', 'call') and (norm(e.fnid or '') == norm(assertion) or norm(e.path) == norm(assertion))]
            g = 1
            for rx in need:
                g = AND(g, ORS(*[AND(e.cond, is_ok(e.res)) for e in ctx.events(s, rx)]))
            if not need: g = 0
            key = 'T06.%s.%s' % (tok.rsplit('::', 1)[1], norm(root))
            n += 1
            made = ORS(*[AND(c, 1 if holds(t, tok) else 0) for c, t in alts(s.ret)])
            tot = OR(ORS(*[e.cond for e in evs]), made)
            if tot == 0: ctx.unk(key, 'construction not reached in summary'); continue
            ctx.require(key, tot, g, 'the token %s is produced without a successful verification' % tok.rsplit('::', 1)[1], s.loc, strict=True)
        ctx.notes.append('%s: %d constructing functions' % (tok, n))
def holds(t, tok): return V.contains(t, lambda x: x.op == 'agg' and x.a[0] == tok)
def mentions(x, s):
    if isinstance(x, str): return x == s
    if isinstance(x, (list, tuple)): return any(mentions(y, s) for y in x)
    if isinstance(x, dict): return any(mentions(y, s) for y in x.values())
    return False
def calls(fn, path):
    for body in [fn] + fn.get('promoted', []):
        for b in body['blocks']:
            if mentions(b['t'], path): return True
            for s in b['s']:
                if mentions(s, path): return True
    return False
