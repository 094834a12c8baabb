"""Rules for the TLS client state machine of tlsn-mpc-tls (M05, M06): what each state accepts, in which order, and what it may do."""
from mpc_rules import *
from lang import *
from core_rules import builds
from suites import distinct_atoms
from wire import somev

ST = MT + 'client::conn::State'
CS = MT + 'client::conn::CommonState::'
CC = MT + 'client::conn::ClientConnection::'
C2 = MT + 'client::tls12::'; C3 = MT + 'client::tls13::'; HSM = MT + 'client::hs::'
MP = 'tls_core::msgs::message::MessagePayload'; HP = 'tls_core::msgs::handshake::HandshakePayload'
STOP = r'CommonState::send_msg$|MpcTlsLeader::|HandshakeHash(Buffer)?::|ResolvesClientCert|fmt::|Signer::'

FLAGS = ['encrypting', 'decrypting', 'may_send_application_data', 'may_receive_application_data', 'aligned_handshake', 'negotiated_version', 'suite', 'alpn_protocol']
def client(ctx):
    """sending a message changes none of the flags (shown here, used everywhere else)"""
    start(ctx)
    f = ctx.fn(CS + 'send_msg')
    if f is None: return
    s = ctx.summ(f, stop=r'MpcTlsLeader::|MessageFragmenter::|fmt::', asyn=is_async(ctx, f))
    fin = s.final(s.args[0])
    for n in FLAGS:
        if contains(fld(fin, n), lambda t: t.op in ('lv', 'acc')) and all(x not in (w or []) for w in [writers(ctx, 'client::conn::CommonState', n)] for x in s.engine.analysed): ctx.ok('frame.' + n)
        else: ctx.value('frame.' + n, fld(fin, n), fld(s.args[0], n), 'sending a message does not change %s' % n, s.loc)
    ctx.frame = [(r'CommonState::send_msg$', FLAGS)]
def okf(e):
    """the (awaited) call succeeded"""
    return ORS(is_ok(T('await', e.res)), is_ok(e.res))
def handler(ctx, ty, stop=STOP):
    f = ctx.method(ST, ty, 'handle', required=False)
    if f is None: ctx.unk('anchor:' + ty, 'the state %s was not found' % ty); return None
    return ctx.summ(f, stop=stop, asyn=True)
def summ(ctx, name, stop=STOP):
    f = ctx.fn(name)
    return ctx.summ(f, stop=stop, asyn=is_async(ctx, f)) if f else None
def is_hs(m, ty): return AND(c_is(fld(m, 'payload'), MP, 'Handshake'), c_is(hs_payload(m), HP, ty))
def hs_payload(m): return fld(m, 'payload.Handshake:0.payload')
def sub(ctx, name, args):
    """value of a (pure) getter"""
    f = ctx.fn(name)
    return ctx.summ(f, args=args).ret if f else None
def sends(ctx, s):
    """[(event, what is sent)]: Alert, ChangeCipherSpec, handshake type, or None"""
    out = []
    for e in ctx.events(s, r'CommonState::send_msg$', kinds=('call',)):
        p = fld(e.args[1], 'payload')
        w = None
        for c, x in alts(p):
            n = None
            if x.op == 'agg':
                n = x.a[1]
                if n == 'Handshake':
                    hp = fld(x, '0.payload')
                    n = hp.a[1] if hp.op == 'agg' else None
            w = n if w in (None, n) else '?'
        out.append((e, w))
    return out
def acts(ctx, s):
    """everything a handler does to the connection besides sending alerts"""
    out = [(e, 'a %s message is sent' % (w or 'handshake')) for e, w in sends(ctx, s) if w != 'Alert']
    for e in ctx.events(s, r'MpcTlsLeader::(prepare_encryption|get_client_finished_vd|get_server_finished_vd|start_traffic|push_outgoing|push_incoming|client_key_share)$', kinds=('call',)):
        out.append((e, '%s is called' % e.path.split('::')[-1]))
    return out

# ---------------------------------------------------------------- call graph
def edges(ctx):
    if hasattr(ctx, '_edges'): return ctx._edges
    up = {}
    def strings(x, out):
        if isinstance(x, str):
            if '::' in x: out.add(x)
        elif isinstance(x, dict):
            for y in x.values(): strings(y, out)
        elif isinstance(x, (list, tuple)):
            for y in x: strings(y, out)
    for f, fn in ctx.db.fns.items():
        if fn.get('crate') not in (None, ctx.crate): continue
        o = set(); strings(fn.get('blocks'), o)
        for g in o:
            if g in ctx.db.fns and g != f: up.setdefault(g, set()).add(f)
        m = re.match(r'(.*)::\{closure#\d+\}$', f)
        if m and m.group(1) in ctx.db.fns: up.setdefault(f, set()).add(m.group(1))
    ctx._edges = up
    return up
def entry(ctx, g):
    """the entry points (states' methods, or functions nothing calls) from which g is reached"""
    up = edges(ctx); seen, todo, out = {g}, [g], set()
    while todo:
        x = todo.pop()
        if re.search(r'conn::State>::(handle|start)$', x): out.add(x); continue
        c = up.get(x, set()) - {x}
        if not c: out.add(x)
        for y in c:
            if y not in seen: seen.add(y); todo.append(y)
    return out
def reached_only(ctx, key, what, fns, allowed, msg):
    """the functions `fns` are reached only from the allowed entry points"""
    bad = set()
    for g in fns:
        for r in entry(ctx, g):
            if not re.search(allowed, r): bad.add((g, r))
    if bad:
        g, r = sorted(bad)[0]
        ctx.bad(key, '%s: %s is reached from %s' % (msg, what, r), ctx.loc(g))
    else: ctx.ok(key)
def writers(ctx, adt_tail, field):
    """functions that assign the field directly"""
    a = adt(ctx, adt_tail)
    if a is None: return None
    v = ctx.db.adts[a]
    out = []
    for f, fn in ctx.db.fns.items():
        if fn.get('crate') not in (None, 'mpc_tls'): continue
        for b in fn.get('blocks') or []:
            for st_ in b['s']:
                if st_[0] == '=' and any(isinstance(p, (list, tuple)) and len(p) > 1 and p[0] == 'f' and field in map(str, p) for p in st_[1][1]): out.append(f)
    return out

# ---------------------------------------------------------------- M05
def M05(ctx):
    """application data only after certificate, key-exchange signature and Finished are verified"""
    client(ctx)
    server_done(ctx)
    ccs(ctx)
    finished(ctx, C2, 'finished')
    finished(ctx, C3, 'finished13')
    cert_verify13(ctx)
    traffic(ctx)
    protocol(ctx)
    flags(ctx)
    incoming(ctx)
def verified(ctx, key, s, okc, W, m_sig):
    """(condition that the certificate and the signature were verified)"""
    cfg, chain_, name, ocsp, sig = W
    v = fld(cfg, 'verifier')
    C = need_call(ctx, key + '.certificate', s, okc, r'verify_server_cert$', [v, V.proj(chain_, ('i', I(0))), V.mkslice(chain_, I(1), length(chain_)), name, None, ocsp, None],
                  'the connection goes on only if the presented chain was verified for the name connected to')
    D = need_call(ctx, key + '.signature', s, okc, m_sig[0], [v, m_sig[1], V.proj(chain_, ('i', I(0))), sig],
                  'the connection goes on only if the key exchange was signed by the key of the presented certificate')
    for e in ctx.events(s, m_sig[0], kinds=('call',)): ctx.ok(key + '.calls')
    return AND(C.ok(is_ok) if C else 1, D.ok(is_ok) if D else 1)
def server_done(ctx):
    s = handler(ctx, C2 + 'ExpectServerDone')
    if not s: return
    me, cx, m = s.args; okc = okcond(s)
    ctx.require('done.message', okc, is_hs(m, 'ServerHelloDone'), 'only a ServerHelloDone ends the flight', s.loc, strict=True)
    ctx.require('done.aligned', okc, bvar(fld(cx, 'aligned_handshake')), 'the flight ends on a record boundary', s.loc, strict=True)
    S = fld(me, 'server_cert'); K = fld(me, 'server_kx')
    chain_ = sub(ctx, 'cert::ServerCertDetails::cert_chain', [S]); ocsp = sub(ctx, 'cert::ServerCertDetails::ocsp_response', [S])
    params = sub(ctx, 'ke::ServerKxDetails::kx_params', [K]); sig = sub(ctx, 'ke::ServerKxDetails::kx_sig', [K])
    if None in (chain_, ocsp, params, sig): return
    msg = V.mkseq([T('s', fld(me, 'randoms.client')), T('s', fld(me, 'randoms.server')), T('s', params)])
    done = verified(ctx, 'done', s, okc, (fld(me, 'config'), chain_, fld(me, 'server_name'), ocsp, sig), (r'verify_tls12_signature$', msg))
    for e, what in acts(ctx, s):
        ctx.require('done.first.' + re.sub(r'\W+', '-', what), e.cond, done, '%s before the server is authenticated' % what, s.loc, strict=True)
    # the signature algorithm fits the suite
    sg = sign_of(ctx, fld(sig, 'scheme'))
    f = ctx.fn('suites::SupportedCipherSuite::usable_for_signature_algorithm')
    if f and sg is not None:
        u = ctx.summ(f, args=[agg('tls_core::suites::SupportedCipherSuite', 'Tls12', ['0'], [fld(me, 'suite')]), sg])
        ctx.require('done.suite', okc, cond(u.ret), 'the key exchange was signed with an algorithm of the negotiated suite', s.loc)
    # what is handed to the joint computation
    es = ctx.events(s, r'MpcTlsLeader::prepare_encryption$', kinds=('call',))
    if not es: ctx.bad('done.keys', 'the keys are never derived', s.loc)
    for e in es:
        h = e.args[1]; g = e.cond
        ctx.value('done.keys.random', fld(h, 'server_random.0'), fld(me, 'randoms.server'), 'the keys are derived from the server random of this handshake', s.loc, care=g)
        ctx.value('done.keys.certificate', fld(h, 'server_cert_details'), S, 'the certificate recorded is the one verified', s.loc, care=g)
        ctx.value('done.keys.kx', fld(h, 'server_kx_details'), K, 'the key exchange recorded is the one whose signature was verified', s.loc, care=g)
        k = fld(h, 'server_key')
        if not contains(k, lambda x: x is params): ctx.bad('done.keys.share', 'the key share used is not read from the signed parameters: %s' % show(k)[:200], s.loc)
        else: ctx.ok('done.keys.share')
    keyed = ORS(*[AND(e.cond, okf(e)) for e in es])
    # order and protection of what is sent
    ss = sends(ctx, s)
    for w in ('ClientKeyExchange', 'ChangeCipherSpec', 'Finished'):
        mine = [e for e, n in ss if n == w]
        if not mine and not any(n in (None, '?') for e, n in ss): ctx.bad('done.sent.' + w, 'no %s is sent' % w, s.loc); continue
        if mine: ctx.require('done.sent.' + w, okc, ORS(*[e.cond for e in mine]), '%s is sent' % w, s.loc)
    for e, n in ss:
        if n in ('Alert', None, '?'): continue
        must = n == 'Finished'
        ctx.same('done.plain.' + n, cond(e.args[2]), 1 if must else 0, '%s is sent %s' % (n, 'encrypted' if must else 'in the clear'), s.loc, care=e.cond)
        if must: ctx.require('done.keyed.' + n, e.cond, keyed, 'Finished is sent only after the keys were derived', s.loc, strict=True)
        elif es: ctx.same('done.keyed.' + n, AND(e.cond, 0 if not after_keys(e, es) else 1), 0, '%s is sent before the keys change' % n, s.loc)
        if must:
            vd = fld(hs_payload(e.args[1]), 'Finished:0.0'); vd = fld(fld(fld(fld(e.args[1], 'payload'), '0'), 'payload'), '0.0')
            ctx.require('done.finished', e.cond, 1 if contains(vd, lambda x: x.op in ('call', 'await') and 'get_client_finished_vd' in str(x.a[0])) else 0, 'the Finished carries the verify data of the joint computation', s.loc)
    ctx.require('done.encrypting', okc, cond(fld(under(s.final(cx), okc), 'encrypting')), 'everything after the ChangeCipherSpec is encrypted', s.loc)
def after_keys(e, es):
    """the connection a message is sent on went through the derivation of the keys"""
    return contains(e.args[0], lambda x: x.op == 'eff' and 'prepare_encryption' in str(x.a[0].a[0] if isinstance(x.a[0], V.Term) else x.a[0]))
def sign_of(ctx, sch):
    f = ctx.db.impl_method('tls_core::msgs::handshake::DecomposedSignatureScheme', 'tls_core::msgs::enums::SignatureScheme', 'sign')
    return ctx.summ(f, args=[sch]).ret if f else None
def ccs(ctx):
    s = handler(ctx, C2 + 'ExpectCcs')
    if not s: return
    me, cx, m = s.args; okc = okcond(s)
    ctx.require('ccs.message', okc, c_is(fld(m, 'payload'), MP, 'ChangeCipherSpec'), 'only a ChangeCipherSpec changes the keys', s.loc, strict=True)
    ctx.require('ccs.aligned', okc, bvar(fld(cx, 'aligned_handshake')), 'the keys change on a record boundary', s.loc, strict=True)
    ctx.require('ccs.decrypting', okc, cond(fld(under(s.final(cx), okc), 'decrypting')), 'everything after the ChangeCipherSpec is decrypted', s.loc)
    ctx.same('ccs.decrypting.only', AND(errcond(s), AND(cond(fld(under(s.final(cx), errcond(s)), 'decrypting')), NOT(bvar(fld(cx, 'decrypting'))))), 0, 'decryption does not start on a refused message', s.loc)
def finished(ctx, C, key):
    s = handler(ctx, C + 'ExpectFinished')
    if not s: return
    me, cx, m = s.args; okc = okcond(s)
    ctx.require(key + '.message', okc, is_hs(m, 'Finished'), 'only a Finished completes the handshake', s.loc, strict=True)
    ctx.require(key + '.aligned', okc, bvar(fld(cx, 'aligned_handshake')), 'the handshake completes on a record boundary', s.loc, strict=True)
    tr = fld(me, 'transcript')
    want = fld(hs_payload(m), 'Finished:0.0')
    vd = [e for e in ctx.events(s, r'MpcTlsLeader::get_server_finished_vd$', kinds=('call',))]
    cur = lambda t: contains(t, lambda x: x.op == 'call' and str(x.a[0]).endswith('get_current_hash') and x.a[-1] is tr)
    for e in vd:
        if not cur(e.args[1]): (ctx.bad if not contains(e.args[1], lambda x: x is tr) or contains(e.args[1], lambda x: x.op == 'eff') else ctx.unk)(key + '.hash', *(('the expected verify data is not computed over the handshake so far: ' + show(e.args[1])[:200],) + ((s.loc,) if not contains(e.args[1], lambda x: x is tr) or contains(e.args[1], lambda x: x.op == 'eff') else ())))
        else: ctx.ok(key + '.hash')
    eqs = equalities(ctx, s)
    good = [c for a, b, c in eqs for x, y in ((a, b), (b, a)) if y is want and contains(x, lambda u: u.op in ('await', 'call') and 'get_server_finished_vd' in str(u.a[0] if not isinstance(u.a[0], V.Term) else u.a[0].a[0]))]
    g = ORS(0, *good)
    ctx.require(key + '.verify', okc, g, 'the handshake completes only if the server\'s Finished is the expected one', s.loc, strict=True)
    for e in ctx.events(s, r'MpcTlsLeader::start_traffic$', kinds=('call',)):
        ctx.require(key + '.traffic', e.cond, g, 'application traffic starts only after the server\'s Finished was verified', s.loc, strict=True)
    fin = s.final(cx)
    for n in ('may_send_application_data', 'may_receive_application_data'):
        for c, x in alts(fin):
            a = cond(fld(x, n))
            ctx.require('%s.%s' % (key, n), AND(c, AND(a, NOT(bvar(fld(cx, n))))), g, 'application data is enabled only after the server\'s Finished was verified', s.loc, strict=True)
def equalities(ctx, s):
    """[(a, b, condition that they were found equal)]"""
    out = []
    for e in s.events:
        if e.kind == 'call' and re.search(r'verify_slices_are_equal$', e.path): out.append((e.args[0], e.args[1], AND(e.cond, is_ok(e.res))))
    seen = set()
    for t in [s.ret] + [e for e in []]:
        for x in subterms(t):
            if x.op == 'cond':
                for v in B.support(x.a[0]):
                    k = V.ATOMS[v]
                    if k[0] == 'b' and k[1].op == 'eq' and v not in seen: seen.add(v); out.append((k[1].a[0], k[1].a[1], bvar(k[1])))
    for c, _ in alts(s.ret):
        for v in B.support(c):
            k = V.ATOMS[v]
            if k[0] == 'b' and k[1].op == 'eq' and v not in seen: seen.add(v); out.append((k[1].a[0], k[1].a[1], bvar(k[1])))
    return out
def cert_verify13(ctx):
    s = handler(ctx, C3 + 'ExpectCertificateVerify')
    if not s: return
    me, cx, m = s.args; okc = okcond(s); S = fld(me, 'server_cert')
    chain_ = sub(ctx, 'cert::ServerCertDetails::cert_chain', [S]); ocsp = sub(ctx, 'cert::ServerCertDetails::ocsp_response', [S])
    if chain_ is None or ocsp is None: return
    verified(ctx, 'certverify13', s, okc, (fld(me, 'config'), chain_, fld(me, 'server_name'), ocsp, fld(hs_payload(m), 'CertificateVerify:0')), (r'verify_tls13_signature$', None))
    ctx.require('certverify13.message', okc, is_hs(m, 'CertificateVerify'), 'only a CertificateVerify is accepted', s.loc, strict=True)
def traffic(ctx):
    for C, key in ((C2, 'traffic'), (C3, 'traffic13')):
        s = handler(ctx, C + 'ExpectTraffic', stop=STOP + r'|take_received_plaintext$')
        if not s: continue
        me, cx, m = s.args
        es = ctx.events(s, r'take_received_plaintext$', kinds=('call',))
        app = c_is(fld(m, 'payload'), MP, 'ApplicationData')
        if not es:
            s2 = handler(ctx, C + 'ExpectTraffic')
            ctx.unk(key + '.released', 'delivery of plaintext not recognised'); continue
        for e in es:
            ctx.require(key + '.released.type', e.cond, app, 'only application data is delivered', s.loc, strict=True)
            ctx.value(key + '.released', e.args[1], fld(m, 'payload.ApplicationData:0'), 'the payload of the record is delivered', s.loc, care=e.cond)
        ctx.require(key + '.delivered', AND(okc_app(s, app), 1), ORS(*[e.cond for e in es]), 'no application data is lost', s.loc)
def okc_app(s, app): return AND(okcond(s), app)
def protocol(ctx):
    # state order: who makes which state
    T2 = lambda n: C2 + n
    H = lambda C, *n: r'%s(%s) as .*State>::handle$' % (re.escape('<' + C), '|'.join(n))
    for ty, allowed in ((C2 + 'ExpectCcs', H(C2, 'ExpectServerDone', 'ExpectServerDoneOrCertReq')), (C2 + 'ExpectFinished', H(C2, 'ExpectCcs')), (C2 + 'ExpectTraffic', H(C2, 'ExpectFinished')),
                        (C3 + 'ExpectFinished', H(C3, 'ExpectCertificateVerify')), (C3 + 'ExpectTraffic', H(C3, 'ExpectFinished'))):
        nm = ty.split('::')[-2] + '.' + ty.split('::')[-1]
        made = [f for f in ctx.db.fns if builds(ctx, f, ty)]
        if not made: ctx.unk('order.' + nm, 'no construction of %s found' % ty); continue
        reached_only(ctx, 'order.' + nm, ty, made, allowed, 'the state is entered only from its predecessor')
    fin = r'(tls12|tls13)::ExpectFinished as .*State>::handle$'
    tra = r'(tls12|tls13)::ExpectTraffic as .*State>::handle$'
    for key, fns, allowed, msg in (('order.traffic', ['start_traffic'], fin, 'application traffic starts only when the server\'s Finished arrives'),
                                   ('order.delivery', ['take_received_plaintext'], tra, 'plaintext is delivered only in the traffic state'),
                                   ('order.encrypting', ['start_encrypting'], r'tls12::ExpectServerDone(OrCertReq)? as .*State>::handle$', 'encryption starts only when the flight is complete'),
                                   ('order.decrypting', ['start_decrypting'], r'tls12::ExpectCcs as .*State>::handle$', 'decryption starts only on the server\'s ChangeCipherSpec')):
        g = [ctx.fn(CS + n, required=False) for n in fns]
        g = [x for x in g if x]
        if not g: ctx.unk(key, '%s not found' % fns); continue
        reached_only(ctx, key, fns[0], g, allowed, msg)
    for key, field, allowed in (('order.field.send', 'may_send_application_data', fin), ('order.field.receive', 'may_receive_application_data', fin),
                                ('order.field.encrypting', 'encrypting', r'tls12::ExpectServerDone(OrCertReq)? as .*State>::handle$'), ('order.field.decrypting', 'decrypting', r'tls12::ExpectCcs as .*State>::handle$')):
        w = writers(ctx, 'client::conn::CommonState', field)
        if not w: ctx.unk(key, 'no assignment of %s found' % field); continue
        reached_only(ctx, key, field, w, allowed, 'the flag %s is set only there' % field)
def flags(ctx):
    s = summ(ctx, CS + 'new')
    if s:
        okc = okcond(s); v = okval(s)
        for n, x in (('may_send_application_data', 0), ('may_receive_application_data', 0), ('encrypting', 0), ('decrypting', 0), ('aligned_handshake', 1)):
            ctx.same('new.' + n, cond(fld(v, n)), x, 'a new connection starts with %s = %s' % (n, bool(x)), s.loc, care=okc)
    s = summ(ctx, CS + 'check_aligned_handshake')
    if s:
        ctx.require('aligned', okcond(s), bvar(fld(s.args[0], 'aligned_handshake')), 'a pending fragment is refused', s.loc, strict=True)
    s = summ(ctx, CS + 'flush_plaintext', stop=STOP + r'|MessageFragmenter::')
    if s:
        gate = bvar(fld(s.args[0], 'may_send_application_data'))
        n = 0
        for e in s.events:
            if e.kind == 'call' and re.search(r'MpcTlsLeader::push_outgoing$|CommonState::send_msg$|pop_front$|VecDeque.*pop$', e.path) or e.kind == 'inl' and re.search(r'ChunkVecBuffer::pop$|send_appdata_encrypt$', e.path):
                n += 1; ctx.require('flush.gate', e.cond, gate, 'written data leaves the client only after the handshake (%s)' % e.path.split('::')[-1], s.loc, strict=True)
        if not n: ctx.unk('flush.gate', 'sending of buffered data not recognised')
    # who hands application data to the record layer
    g = [ctx.fn(CS + n, required=False) for n in ('send_appdata_encrypt',)]
    if g[0]: reached_through(ctx, 'order.appdata', g[0], CS + 'flush_plaintext', 'application data is sent only by flushing the gated buffer')
def reached_through(ctx, key, g, via, msg):
    """every caller path to g passes the function `via`"""
    up = edges(ctx); f = ctx.fn(via)
    if not f: return
    stop = {f, f + '::{closure#0}'}
    seen, todo = {g}, [g]
    while todo:
        x = todo.pop()
        if x in stop: continue
        c = up.get(x, set()) - {x}
        if not c or re.search(r'conn::State>::(handle|start)$', x):
            if x != g or not x.startswith(CS): ctx.bad(key, '%s: reached from %s' % (msg, x), ctx.loc(g)); return
        for y in c:
            if y not in seen: seen.add(y); todo.append(y)
    ctx.ok(key)

AL = 'tls_core::msgs::enums::AlertLevel'; AD = 'tls_core::msgs::enums::AlertDescription'
def incoming(ctx):
    """how a received record reaches the state"""
    s = summ(ctx, CC + 'process_incoming_opaque')
    if s:
        me, m = s.args; okc = okcond(s); v = okval(s); cx = fld(me, 'common_state')
        some = AND(okc, c_is(v, V.OPT, 'Some')); dec = bvar(fld(cx, 'decrypting'))
        ctx.require('opaque.plain', some, NOT(dec), 'a record is read in the clear although decryption has started', s.loc, strict=True)
        for n in ('typ', 'payload'): ctx.value('opaque.plain.' + n, fld(fld(v, 'Some:0'), n), fld(m, n), 'a record in the clear is passed on as received (%s)' % n, s.loc, care=some)
        ps = [e for e in ctx.events(s, r'MpcTlsLeader::push_incoming$', kinds=('call',)) if e.args[1] is m]
        drop = ANDS(c_is(fld(m, 'typ'), CT, 'ChangeCipherSpec'), NOT(bvar(fld(cx, 'may_receive_application_data'))), cond(sub(ctx, CS + 'is_tls13', [cx])))
        ctx.require('opaque.pushed', AND(okc, NOT(c_is(v, V.OPT, 'Some'))), OR(drop, ORS(0, *[AND(e.cond, okf(e)) for e in ps])), 'a received record is lost', s.loc)
    s = summ(ctx, CC + 'process_incoming_plain', STOP + r'|HandshakeJoiner::|process_main_protocol$|process_new_handshake_messages$|TryFrom|try_from')
    if s:
        me, m, st_ = s.args; okc = okcond(s)
        hs = c_is(fld(m, 'typ'), CT, 'Handshake')
        jn = ctx.events(s, r'HandshakeJoiner::take_message$', kinds=('call',))
        wants = [e for e in ctx.events(s, r'HandshakeJoiner::want_message$', kinds=('call',)) if e.args[1] is m]
        if wants: hs = ORS(*[AND(e.cond, bvar(e.res)) for e in wants])
        joined = ORS(0, *[AND(e.cond, c_is(e.res, V.OPT, 'Some')) for e in jn if e.args[1] is m])
        ctx.require('plain.joined', AND(okc, hs), joined, 'a handshake record is processed without being joined', s.loc)
        for e in ctx.events(s, r'process_new_handshake_messages$', kinds=('call',)):
            ctx.require('plain.joined.first', e.cond, joined, 'the state sees handshake messages of a record that could not be joined', s.loc, strict=True)
            ctx.value('plain.joined.state', e.args[1], st_, 'the messages are given to the current state', s.loc, care=e.cond)
        tf = [e for e in ctx.events(s, r'try_from$', kinds=('call',)) if e.args[0] is m]
        for e in ctx.events(s, r'process_main_protocol$', kinds=('call',)):
            x = e.args[1]
            if tf:
                ctx.value('plain.message', x, okv(tf[0].res), 'the state is given the parsed record', s.loc, care=e.cond)
                ctx.require('plain.alert', e.cond, NOT(c_is(fld(okv(tf[0].res), 'payload'), MP, 'Alert')), 'alerts are not given to the state', s.loc, strict=True)
            ctx.require('plain.fragment', e.cond, NOT(hs), 'a handshake fragment is given to the state', s.loc, strict=True)
            ctx.value('plain.state', e.args[2], st_, 'the record is given to the current state', s.loc, care=e.cond)
        if tf:
            al = fld(okv(tf[0].res), 'payload.Alert:0')
            isal = AND(tf[0].cond, AND(is_ok(tf[0].res), c_is(fld(okv(tf[0].res), 'payload'), MP, 'Alert')))
            ctx.require('plain.alert.fatal', AND(okc, isal), OR(c_is(fld(al, 'description'), AD, 'CloseNotify'), c_is(fld(al, 'level'), AL, 'Warning')), 'a fatal alert does not end the connection', s.loc)
    s = summ(ctx, CC + 'process_new_handshake_messages', STOP + r'|process_main_protocol$')
    if s:
        me, st_ = s.args
        # the flag is computed from the joiner before any message is processed
        joiner = fld(me, 'handshake_joiner')
        es = ctx.events(s, r'process_main_protocol$', kinds=('call',))
        want = sub(ctx, 'msgs::hsjoiner::HandshakeJoiner::is_empty', [joiner])
        ls = [l for l in s.engine.loops.values() if any(k.op == 'lv' for k in l['init'])]
        n = 0
        for l in ls:
            for lv_, i in l['init'].items():
                b = fld(i, 'common_state.aligned_handshake')
                if i.op == 'upd' or contains(b, lambda t: t is joiner): n += 1; ctx.same('join.aligned', cond(b), cond(want), 'alignment is recorded before the messages of a record are processed', s.loc)
        if not n:
            odd = [l for l in ls if any(i is me for i in l['init'].values())]
            if odd: ctx.bad('join.aligned', 'messages are processed without recording whether a fragment is left over', s.loc)
            else: ctx.unk('join.aligned', 'alignment flag not recognised')
        for e in es:
            a = e.args[1]
            if contains(a, lambda t: 'pop_front' in str(t.a[0] if t.op == 'call' else '')): ctx.ok('join.order')
            elif contains(a, lambda t: t.op == 'call' and re.search(r'pop_back|::pop$|swap_remove', str(t.a[0]))): ctx.bad('join.order', 'handshake messages are processed out of order', s.loc)
            else: ctx.unk('join.order', 'message processed: ' + show(a)[:200])
    s = summ(ctx, CS + 'process_main_protocol')
    if s:
        me, m, st_ = s.args; okc = okcond(s); v = okval(s)
        es = ctx.events(s, r'conn::State::handle$', kinds=('call',))
        ren = ANDS(c_is(fld(m, 'payload'), MP, 'Handshake'), c_is(fld(m, 'payload.Handshake:0.typ'), HSM_T, 'HelloRequest'), bvar(fld(me, 'may_receive_application_data')))
        good = ORS(0, *[AND(e.cond, okf(e)) for e in es if e.args[0] is st_ and e.args[2] is m])
        ctx.require('main.accepted', okc, OR(good, ren), 'a message is accepted although the state did not accept it', s.loc, strict=True)
        for e in es:
            ctx.value('main.next', v, okv(T('await', e.res)), 'the next state is the one the current state chose', s.loc, care=AND(okc, e.cond))
            ctx.value('main.next.msg', e.args[2], m, 'the state is given the message', s.loc, care=e.cond)
        ctx.value('main.renegotiation', v, st_, 'a renegotiation request does not change the state', s.loc, care=AND(okc, NOT(ORS(0, *[e.cond for e in es]))))
        # an unexpected message is answered with an alert
        for e in es:
            er = errv(T('await', e.res))
            odd = AND(e.cond, AND(NOT(is_ok(T('await', e.res))), ORS(c_is(er, ERR, 'InappropriateMessage'), c_is(er, ERR, 'InappropriateHandshakeMessage'))))
            al = ORS(0, *[x.cond for x, w in sends(ctx, s) if w == 'Alert' and fld(x.args[1], 'payload.Alert:0.description').op == 'agg' and fld(x.args[1], 'payload.Alert:0.description').a[1] == 'UnexpectedMessage'])
            pan = ORS(0, *[x.cond for x in s.events if x.kind == 'panic'])
            ctx.require('main.alert', odd, OR(al, pan), 'an unexpected message is not answered with an alert', s.loc)
    s = summ(ctx, CC + 'process_new_packets', STOP + r'|process_incoming_(opaque|plain)$|flush_plaintext$|queue_tls_message$|current_io_state$')
    if s:
        me = s.args[0]; okc = okcond(s); er = errcond(s)
        op = ctx.events(s, r'process_incoming_opaque$', kinds=('call',)); pl = ctx.events(s, r'process_incoming_plain$', kinds=('call',))
        alive = AND(c_is(fld(me, 'state'), V.RES if hasattr(V, 'RES') else 'core::result::Result', 'Ok'), NOT(bvar(fld(me, 'message_deframer.desynced'))))
        for e in op + pl: ctx.require('packets.dead', e.cond, alive, 'records are processed although the connection has failed or lost synchronisation', s.loc, strict=True)
        src = ORS(0)
        for e in pl:
            a = e.args[1]
            if contains(a, lambda t: t.op in ('call', 'await') and 'process_incoming_opaque' in show_head(t)): ctx.ok('packets.source.early')
            elif contains(a, lambda t: t.op == 'call' and 'next_incoming' in str(t.a[0])): ctx.ok('packets.source.decrypted')
            elif contains(a, lambda t: t.op == 'call' and 'pop_front' in str(t.a[0])): ctx.bad('packets.source', 'a record is processed without passing decryption', s.loc)
            else: ctx.unk('packets.source', 'record processed: ' + show(a)[:200])
def show_head(t):
    while t.op == 'await': t = t.a[0]
    return str(t.a[0])
HSM_T = 'tls_core::msgs::enums::HandshakeType'
ERR = MT + 'client::error::Error'

# ---------------------------------------------------------------- M06
EN_ = 'tls_core::msgs::enums::'
def alerted(ctx, s):
    """conditions under which the handler answered with an alert (or a debug assertion stopped it)"""
    return ORS(0, *[e.cond for e, w in sends(ctx, s) if w == 'Alert'] + [e.cond for e in s.events if e.kind == 'panic'])
def no_duplicates(ctx, key, s, go, X, what):
    es = [e for e in ctx.events(s, r'has_duplicate_extension$', kinds=('call',)) if e.args[0] is X]
    if es: ctx.require(key, go, NOT(ORS(*[AND(e.cond, bvar(e.res)) for e in es])), '%s with two extensions of the same type is accepted' % what, s.loc, strict=True)
    elif distinct_atoms(ctx, s): ctx.unk(key, 'duplicate detection not recognised')
    else: ctx.bad(key, '%s with two extensions of the same type is accepted: nothing looks for duplicates' % what, s.loc)
    if es: ctx.require(key + '.all', go, ORS(*[e.cond for e in es]), '%s is accepted without looking for duplicates' % what, s.loc, strict=True)
def M06(ctx):
    """a server hello is accepted only if it answers the offer"""
    client(ctx)
    RX = r'|handle_server_hello$|has_duplicate_extension$|emit_client_hello_for_retry$'
    s = handler(ctx, HSM + 'ExpectServerHello', stop=STOP + RX)
    if s: server_hello(ctx, s)
    unsolicited(ctx)
    suite_lookup(ctx)
    complete(ctx)
    retry(ctx, RX)
    offer(ctx)
def server_hello(ctx, s):
    me, cx, m = s.args
    sh = fld(hs_payload(m), 'ServerHello:0'); X = fld(sh, 'extensions'); cfg = fld(me, 'config')
    e12 = ctx.events(s, r'tls12::.*handle_server_hello$', kinds=('call',)); e13 = ctx.events(s, r'tls13::handle_server_hello$', kinds=('call',))
    if not e12: ctx.unk('hello', 'the TLS 1.2 path was not recognised'); return
    go = ORS(*[e.cond for e in e12 + e13])
    ctx.require('hello.reached', okcond(s), go, 'a hello is accepted without being handled', s.loc, strict=True)
    ctx.require('hello.message', go, is_hs(m, 'ServerHello'), 'only a ServerHello is accepted', s.loc, strict=True)
    ctx.require('hello.compression', go, c_is(fld(sh, 'compression_method'), EN_ + 'Compression', 'Null'), 'a compression method that was not offered is accepted', s.loc, strict=True)
    no_duplicates(ctx, 'hello.duplicates', s, go, sh, 'a hello')
    f = ctx.fn(HSM + 'ClientHelloDetails::server_sent_unsolicited_extensions')
    if f:
        u = ctx.summ(f, args=[fld(me, 'hello'), X, T('arr', agg(EN_ + 'ExtensionType', 'RenegotiationInfo', [], []))])
        extra = [y for e in ctx.events(s, r'server_sent_unsolicited_extensions$', kinds=('call', 'inl')) for c, x in alts(e.args[2]) if x.op == 'arr'
                 for y in x.a if y.op == 'agg' and y.a[1] not in ('RenegotiationInfo',)]
        if extra: ctx.bad('hello.unsolicited', 'an extension that was not offered is accepted: %s is exempted' % show(extra[0]), s.loc)
        else: ctx.require('hello.unsolicited', go, NOT(cond(u.ret)), 'an extension that was not offered is accepted', s.loc)
    ver = lambda v: agg(EN_ + 'ProtocolVersion', v, [], [])
    sup = lambda v: cond(sub(ctx, MT + 'client::config::ClientConfig::supports_version', [cfg, ver(v)]))
    sv = sub_method(ctx, 'msgs::handshake::ServerHelloPayload::get_supported_versions', sh)
    legacy = c_is(fld(sh, 'legacy_version'), EN_ + 'ProtocolVersion', 'TLSv1_2')
    old13 = c_is(fld(sh, 'legacy_version'), EN_ + 'ProtocolVersion', 'TLSv1_3')      # named directly
    fs = sub(ctx, MT + 'client::config::ClientConfig::find_cipher_suite', [cfg, fld(sh, 'cipher_suite')])
    SUITE = 'tls_core::suites::SupportedCipherSuite'
    for es, key, v in ((e12, 'hello12', 'TLSv1_2'), (e13, 'hello13', 'TLSv1_3')):
        for e in es:
            ctx.require(key + '.version.offered', e.cond, sup(v), 'a version that is not enabled is accepted', s.loc)
            ctx.require(key + '.legacy', e.cond, legacy if v == 'TLSv1_2' else OR(legacy, old13), 'a hello of another version is accepted', s.loc)
            if sv is not None:
                if v == 'TLSv1_2': ctx.require(key + '.version', e.cond, NOT(c_is(sv, V.OPT, 'Some')), 'version 1.2 negotiated by the 1.3 extension is accepted', s.loc)
                else: ctx.require(key + '.version', e.cond, OR(old13, AND(c_is(sv, V.OPT, 'Some'), c_is(fld(sv, 'Some:0'), EN_ + 'ProtocolVersion', 'TLSv1_3'))), 'version 1.3 is used although the server did not select it', s.loc)
            if fs is not None:
                ctx.require(key + '.suite', e.cond, c_is(fs, V.OPT, 'Some'), 'a cipher suite that was not offered is accepted', s.loc)
                ctx.require(key + '.suite.kind', e.cond, c_is(fld(fs, 'Some:0'), SUITE, 'Tls12' if v == 'TLSv1_2' else 'Tls13'), 'the suite does not belong to the negotiated version', s.loc)
            hcx = e.args[1]
            ctx.value(key + '.recorded.version', fld(hcx, 'negotiated_version'), agg(V.OPT, 'Some', ['0'], [ver(v)]), 'the negotiated version is recorded', s.loc, care=e.cond)
            if fs is not None: ctx.value(key + '.recorded.suite', fld(hcx, 'suite'), fs, 'the negotiated suite is recorded', s.loc, care=e.cond)
            if v == 'TLSv1_2':
                if fs is not None: ctx.value(key + '.used.suite', e.args[2], fld(fs, 'Some:0.Tls12:0'), 'the handshake goes on with the suite the server selected', s.loc, care=e.cond)
                ctx.value(key + '.random.client', fld(e.args[0], 'randoms.client'), fld(me, 'random.0'), 'the client random is the one offered', s.loc, care=e.cond)
                ctx.value(key + '.random.server', fld(e.args[0], 'randoms.server'), fld(sh, 'random.0'), 'the server random is the one received', s.loc, care=e.cond)
                ctx.value(key + '.hello', e.args[3], sh, 'the hello handled is the one checked', s.loc, care=e.cond)
                ctx.same(key + '.downgrade', cond(e.args[4]), sup('TLSv1_3'), 'the downgrade check knows whether 1.3 was offered', s.loc, care=e.cond)
    # a retried handshake keeps its suite
    prev = fld(me, 'suite')
    if fs is not None:
        eqs = [c for a, b, c in equalities(ctx, s) if {a, b} == {fld(prev, 'Some:0'), fld(fs, 'Some:0')}]
        kept_ = [x for x in atoms_eq(go) if prev in subterms(x)]
        if kept_: ctx.ok('hello.suite.kept')
        elif not any(prev in subterms(V.ATOMS[v][1]) for v in B.support(go)): ctx.bad('hello.suite.kept', 'the suite may differ from the one of the retry request', s.loc)
        else: ctx.unk('hello.suite.kept', 'comparison with the suite of the retry request not recognised')
    # protocol (ALPN) and point formats
    ap = sub_method(ctx, 'msgs::handshake::HasServerExtensions::get_alpn_protocol', sh, env={0: ('adt', 'tls_core::msgs::handshake::ServerHelloPayload', ())})
    if ap is not None:
        p = fld(ap, 'Some:0')
        offered = exists_eq(ctx, s, fld(cfg, 'alpn_protocols'), p)
        for e in e12:
            ctx.value('hello.alpn.recorded', fld(e.args[1], 'alpn_protocol'), ap, 'the negotiated protocol is the one the server selected', s.loc, care=e.cond)
            if offered is not None: ctx.require('hello.alpn', AND(e.cond, c_is(ap, V.OPT, 'Some')), offered, 'a protocol that was not offered is accepted', s.loc, strict=True)
    # refusals
    ctx.require('hello.alert', AND(is_hs(m, 'ServerHello'), NOT(go)), alerted(ctx, s), 'a refused hello is not answered with an alert', s.loc)
def atoms_eq(c): return [V.ATOMS[v][1] for v in B.support(c)]
def sub_method(ctx, name, arg, env=None):
    f = ctx.fn(name, required=False)
    if f is None: ctx.unk('anchor:' + name, 'not found'); return None
    return ctx.summ(f, args=[arg], env=env).ret
def exists_eq(ctx, s, X, p):
    el = V.elem(X)
    return NOT(V.mk_all(X, NOT(V.c_eq(el, p))))
def unsolicited(ctx):
    f = ctx.fn(HSM + 'ClientHelloDetails::server_sent_unsolicited_extensions')
    if not f: return
    s = ctx.summ(f); me, R, A_ = s.args
    g = ctx.db.find('tls_core::msgs::handshake::ServerExtension::get_type')
    if not g: ctx.unk('unsolicited', 'type of an extension not found'); return
    el = V.elem(R); ty = ctx.summ(g, args=[el]).ret
    S = fld(me, 'sent_extensions')
    eq = ctx.db.impl_method('core::cmp::PartialEq', EN_ + 'ExtensionType', 'eq')
    same = lambda a, b: cond(ctx.summ(eq, args=[a, b]).ret) if eq else V.c_eq(a, b)
    want = NOT(V.mk_all(R, OR(NOT(V.mk_all(S, NOT(same(V.elem(S), ty)))), NOT(V.mk_all(A_, NOT(same(V.elem(A_), ty)))))))
    ctx.same('unsolicited', cond(s.ret), want, 'an extension counts as unsolicited iff its type was neither sent nor exempted', s.loc)
def suite_lookup(ctx):
    f = ctx.fn(MT + 'client::config::ClientConfig::find_cipher_suite')
    if not f: return
    s = ctx.summ(f); me, x = s.args
    X = fld(me, 'cipher_suites'); el = V.elem(X)
    g = ctx.fn('suites::SupportedCipherSuite::suite')
    if not g: return
    n = ctx.summ(g, args=[el]).ret
    eq = ctx.db.impl_method('core::cmp::PartialEq', EN_ + 'CipherSuite', 'eq')
    c = cond(ctx.summ(eq, args=[n, x]).ret) if eq else V.c_eq(n, x)
    ctx.same('suite.offered', okcond(s), NOT(V.mk_all(X, NOT(c))), 'a suite is known iff it was offered', s.loc)
    ctx.value('suite.value', okval(s), el, 'the suite is the offered one of that number', s.loc, care=okcond(s))
def complete(ctx):
    f = ctx.fn(C2 + 'server_hello::CompleteServerHelloHandling::handle_server_hello')
    if not f: return
    s = ctx.summ(f, stop=STOP, asyn=is_async(ctx, f)); okc = okcond(s)
    me, cx, suite, sh, t13 = s.args
    D = [e for e in equalities(ctx, s)]
    rnd = fld(sh, 'random.0')
    here = [T('index', rnd, I(24 + i)) for i in range(8)]
    mark = ANDS(*[c_eq(x, I(b)) for x, b in zip(here, b'DOWNGRD\x01')])
    if not any(t13 in subterms(x) or t13 is x for x in atoms_eq(okc)) and not any(rnd in subterms(x) for x in atoms_eq(okc)):
        ctx.bad('downgrade', 'a downgraded hello is accepted: nothing looks for the mark', s.loc)
    else: ctx.require('downgrade', AND(okc, cond(t13)), NOT(mark), 'a downgraded hello is accepted', s.loc)
def retry(ctx, RX):
    f = ctx.fn(HSM + 'ExpectServerHelloOrHelloRetryRequest::handle_hello_retry_request')
    if not f: return
    s = ctx.summ(f, stop=STOP + RX + r'|has_unknown_extension$|get_cookie$|get_requested_key_share_group$|get_supported_versions$', asyn=is_async(ctx, f))
    me, cx, m = s.args
    hrr = fld(hs_payload(m), 'HelloRetryRequest:0'); nx = fld(me, 'next'); cfg = fld(nx, 'config')
    es = ctx.events(s, r'emit_client_hello_for_retry$', kinds=('call',))
    if not es: ctx.unk('retry', 'the second hello was not recognised'); return
    go = ORS(*[e.cond for e in es])
    ctx.require('retry.reached', okcond(s), go, 'a retry request is accepted without a second hello', s.loc, strict=True)
    ctx.require('retry.aligned', go, bvar(fld(cx, 'aligned_handshake')), 'the retry request ends on a record boundary', s.loc, strict=True)
    no_duplicates(ctx, 'retry.duplicates', s, go, hrr, 'a retry request')
    def the(rx, key):
        r = [e for e in ctx.events(s, rx, kinds=('call',)) if e.args[0] is hrr]
        if not r: ctx.bad('retry.' + key, 'a retry request is accepted without looking at its %s' % key, s.loc); return None
        ctx.require('retry.%s.looked' % key, go, ORS(*[e.cond for e in r]), 'a retry request is accepted without looking at its ' + key, s.loc, strict=True)
        return r[0].res
    u = the(r'has_unknown_extension$', 'extensions')
    if u is not None: ctx.require('retry.unknown', go, NOT(bvar(u)), 'a retry request with an unknown extension is accepted', s.loc, strict=True)
    v = the(r'get_supported_versions$', 'version')
    if v is not None: ctx.require('retry.version', go, AND(c_is(v, V.OPT, 'Some'), c_is(fld(v, 'Some:0'), EN_ + 'ProtocolVersion', 'TLSv1_3')), 'a retry request for a version that cannot be retried is accepted', s.loc, strict=True)
    ck = the(r'get_cookie$', 'cookie'); gr = the(r'get_requested_key_share_group$', 'group')
    some = lambda t: c_is(t, V.OPT, 'Some')
    if ck is not None and gr is not None:
        ctx.require('retry.change', go, OR(some(ck), some(gr)), 'a retry request that changes nothing is accepted', s.loc, strict=True)
        ctx.require('retry.cookie', AND(go, some(ck)), NOT(c_eq(length(fld(ck, 'Some:0.0')), I(0))), 'an empty cookie is accepted', s.loc, strict=True)
        ks = fld(nx, 'offered_key_share.Some:0.group'); g_ = fld(gr, 'Some:0')
        eq = ctx.db.impl_method('core::cmp::PartialEq', EN_ + 'NamedGroup', 'eq')
        found = [bvar(x) for x in atoms_eq(go) if x.op == 'eq' and set(x.a) == {g_, ks}]
        same = found[0] if found else cond(ctx.summ(eq, args=[g_, ks]).ret) if eq else c_eq(g_, ks)
        ctx.require('retry.group', AND(go, some(gr)), same, 'a group that was not offered is accepted', s.loc)
        ctx.require('retry.group.again', AND(go, NOT(some(ck))), NOT(AND(some(gr), same)), 'a retry request for the group already sent is accepted', s.loc)
    fs = sub(ctx, MT + 'client::config::ClientConfig::find_cipher_suite', [cfg, fld(hrr, 'cipher_suite')])
    if fs is not None:
        ctx.require('retry.suite', go, c_is(fs, V.OPT, 'Some'), 'a cipher suite that was not offered is accepted', s.loc)
        for e in es:
            if len(e.args) >= 12: ctx.value('retry.suite.kept', e.args[11], fs, 'the suite of the retry request is remembered for the second hello', s.loc, care=e.cond)
    ctx.require('retry.alert', AND(is_hs(m, 'HelloRetryRequest'), NOT(go)), alerted(ctx, s), 'a refused retry request is not answered with an alert', s.loc)
def offer(ctx):
    f = ctx.fn(HSM + 'emit_client_hello_for_retry')
    if not f: return
    s = ctx.summ(f, stop=STOP + r'|emit_fake_ccs$|supports_version$|get_cookie$|for_sni$|make_sni$|supported_verify_schemes$|supported$|build_ocsp$|from_slices$', asyn=is_async(ctx, f))
    okc = okcond(s)
    es = [e for e, w in sends(ctx, s) if w == 'ClientHello']
    if len(es) != 1: ctx.unk('offer', '%d client hellos sent' % len(es)); return
    ch = fld(es[0].args[1], 'payload.Handshake:0.payload.ClientHello:0')
    ex = fld(ch, 'extensions'); cfg = s.args[0]
    nxt = [x for c, x in alts(okval(s))]
    def inner(x): return fld(x, 'next') if x.op == 'agg' and 'next' in x.a[2].split(',') else x
    for x in nxt:
        n = inner(x)
        if n.op != 'agg' or 'hello' not in n.a[2].split(','): ctx.unk('offer.remembered', 'next state ' + show(n)[:150]); continue
        got = fld(n, 'hello.sent_extensions')
        g = ctx.db.find('tls_core::msgs::handshake::ClientExtension::get_type')
        if g is None: ctx.unk('offer.remembered', 'type of an extension not found'); continue
        want = kinds_of(ctx, ex, g)
        if got.op == 'coll': want = T('coll', ex, ctx.summ(g, args=[V.elem(ex)]).ret)
        ctx.value('offer.remembered', got, want, 'the extensions remembered as offered are those sent', s.loc, care=okc)
        ctx.value('offer.random', fld(n, 'random'), fld(ch, 'random'), 'the random remembered is the one sent', s.loc, care=okc)
        ctx.value('offer.config', fld(n, 'config'), cfg, 'the configuration is kept', s.loc, care=okc)
        ctx.value('offer.suite', fld(n, 'suite'), s.args[11], 'the suite of a retry request is kept', s.loc, care=okc)
    cs = fld(ch, 'cipher_suites'); Y = fld(cfg, 'cipher_suites')
    g = ctx.fn('suites::SupportedCipherSuite::suite')
    if g:
        want = V.mkseq([T('s', T('coll', Y, ctx.summ(g, args=[V.elem(Y)]).ret)), T('e', agg(EN_ + 'CipherSuite', 'TLS_EMPTY_RENEGOTIATION_INFO_SCSV', [], []))])
        ctx.value('offer.suites', cs, want, 'exactly the configured suites are offered', s.loc, care=okc)
    ctx.value('offer.compression', fld(ch, 'compression_methods'), T('arr', agg(EN_ + 'Compression', 'Null', [], [])), 'no compression is offered', s.loc, care=okc)
def kinds_of(ctx, ex, g):
    """the types of the elements of a list of extensions"""
    if ex.op == 'choice': return V.choice([(c, kinds_of(ctx, x, g)) for c, x in alts(ex)])
    if ex.op == 'arr': return T('arr', *[ctx.summ(g, args=[x]).ret for x in ex.a])
    if ex.op == 'seq': return V.mkseq([T('s', kinds_of(ctx, x.a[0], g)) if x.op == 's' else T('e', ctx.summ(g, args=[x.a[0]]).ret) for x in ex.a])
    return T('coll', ex, ctx.summ(g, args=[V.elem(ex)]).ret)
