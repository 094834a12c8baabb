"""S01, S02, S04: what the verifier of crates/tlsn accepts.  The verifier's own source is analysed; the sibling modules (the joint
computation, the tag and plaintext proofs, the proxy) need dependencies that are not present and are opaque values of their arguments."""
from mpc_rules import start as _start
from mpc_rules import *
from lang import *
from core_rules import builds
from client_rules import reached_only

VF = 'tlsn::verifier::'
STOP = (r'verify_tags$|MpcTlsFollower::run$|::finalize$|::execute_all$|TagProof::verify$|VerifyDataCheck::|fmt::|new_stream$|InspectReader::|first_read$|io::copy|::close$|'
        r'VerifierDeps::|try_join$|try_lock$|into_inner$|verifier::verify::verify$|ServerCertVerifier::|root_store$|expect_next$|::send$')
VSTOP = (r'verify_plaintext$|verify_hash$|fmt::|HandshakeData::verify$|certificate_binding$|::execute_all$|union_mut$|PlaintextProof::verify$|HashCommitFuture::try_recv$|'
         r'ServerCertVerifier::|_authed$|_unsafe$|ProveRequest::reveal$|transcript_commit$|len_sent$|len_received$|PartialTranscript::new$')
def begin(ctx):
    _start(ctx); ctx.crate = 'tlsn'
def okf(e): return ORS(is_ok(T('await', e.res)), is_ok(e.res)) if e.res is not None else 0
def outc(e): return T('await', e.res)
def okvals(e):
    """the value the (awaited) call returned"""
    return [fld(T('await', e.res), 'Ok:0'), fld(e.res, 'Ok:0')]
def strip(t):
    """the value without the opaque mutations of it"""
    while True:
        if t.op in ('ref', 'deref'): t = t.a[0]
        elif t.op == 'choice':
            xs = {strip(x) for c, x in alts(t)}
            if len(xs) != 1: return t
            t = xs.pop()
        elif t.op == 'eff':
            c, i = t.a[0], t.a[1]
            n = c.a[2 + i] if c.op == 'call' and isinstance(i, int) and len(c.a) > 2 + i else None
            if n is None: return t
            t = n
        else: return t
def lost(s): return [e for e in s.events if e.kind in ('callv', 'opaque') or e.kind == 'call' and e.path in ('', '?')]
def calls(ctx, key, s, rx, what):
    es = ctx.events(s, rx, kinds=('call',))
    if not es: (ctx.unk if lost(s) else ctx.bad)(key, what + ': no such call', *(() if lost(s) else (s.loc,)))
    return es
def outcomes(ctx, s):
    """the outcomes of the calls are free: they may take the value that exhibits the difference"""
    res = {e.res for e in s.events if e.kind == 'call' and e.res is not None}
    out = set()
    for c in [okcond(s)] + [e.cond for e in s.events]:
        for k in B.support(c):
            t = V.ATOMS[k][1]
            if t.op == 'discr': t = t.a[0]
            if t.op == 'await': t = t.a[0]
            if t in res: out.add(k)
    return out
def needed(ctx, key, s, okc, es, msg, also=None):
    """acceptance implies that one of the calls was made and succeeded"""
    g = ORS(*[ANDS(e.cond, okf(e), also(e) if also else 1) for e in es])
    ctx.require(key, okc, g, msg, s.loc, vocab=outcomes(ctx, s))
def argis(ctx, key, e, i, want, msg, care=1, where=''):
    ctx.value(key, strip(e.args[i]), want, msg, where, care=AND(care, e.cond))

def S01(ctx):
    """a verifier reports a session as committed only after its tags were verified"""
    begin(ctx)
    for kind in ('Mpc', 'Proxy'):
        f = ctx.fn('tlsn::verifier::Verifier::<tlsn::verifier::state::CommitAccepted<tlsn::%s>>::run' % kind)
        if not f: continue
        s = ctx.summ(f, stop=STOP, asyn=True); okc = returns(s); v = okval(s); key = kind.lower() + '.'
        if v is None: ctx.bad(key + 'result', 'no session is ever reported as committed', s.loc); continue
        dep = fld(s.args[0], 'state.deps.%s:0' % kind)
        # the source of the transcript and of the keys
        if kind == 'Mpc':
            es = calls(ctx, key + 'session', s, r'MpcTlsFollower::run$', 'the session is not run')
            if not es: continue
            src = es[0]
            tt = fld(fld(outc(src), 'Ok:0'), '1'); keys = fld(fld(dep, 'keys'), 'Some:0')
            argis(ctx, key + 'session.of', src, 0, fld(dep, 'mpc_tls'), 'the session is run by the follower that was set up', where=s.loc)
            fin = calls(ctx, key + 'finalize', s, r'Deap::finalize$', 'the joint computation is not finalized')
            if fin:
                needed(ctx, key + 'finalize', s, okc, fin, 'reported as committed although the joint computation was not finalized')
        else:
            es = calls(ctx, key + 'session', s, r'ProxyVerifier::finalize$', 'the session is not derived from the forwarded bytes')
            if not es: continue
            src = es[0]
            o = fld(fld(outc(src), 'Ok:0'), '2'); tt = fld(o, 'tls_transcript'); keys = fld(o, 'keys')
            fw = ctx.events(s, r'try_join$', kinds=('call',))
            if fw: needed(ctx, key + 'forward', s, okc, fw, 'reported as committed although forwarding the traffic failed')
            proxied(ctx, key, s, src)
            for i, name in ((3, "the client's"), (4, "the server's")):
                chk = [e for e in ctx.events(s, r'VerifyDataCheck::check$', kinds=('call',)) if strip(e.args[0]) is fld(fld(outc(src), 'Ok:0'), str(i))]
                if not chk and lost(s): ctx.unk(key + 'finished.%d' % i, 'unresolved calls')
                else: needed(ctx, key + 'finished.%d' % i, s, okc, chk, 'reported as committed although the verify data in %s Finished message was not checked' % name)
        needed(ctx, key + 'session', s, okc, es, 'reported as committed although the session failed')
        tags = calls(ctx, key + 'tags', s, r'::verify_tags$', 'the record tags are not verified')
        if not tags: continue
        for e in tags:
            argis(ctx, key + 'tags.key', e, 1, T('tup', fld(keys, 'server_write_key'), fld(keys, 'server_write_iv')), 'the tags are verified with the joint server key', okc, s.loc)
            argis(ctx, key + 'tags.mac', e, 2, fld(keys, 'server_write_mac_key'), 'the tags are verified with the joint authentication key', okc, s.loc)
            argis(ctx, key + 'tags.version', e, 3, fld(tt, 'version'), 'the tags are verified for the version of the session', okc, s.loc)
            argis(ctx, key + 'tags.records', e, 4, fld(tt, 'recv'), 'the tags of all received records are verified', okc, s.loc)
        needed(ctx, key + 'tags', s, okc, tags, 'reported as committed although preparing the verification of the tags failed')
        pr = [e for e in ctx.events(s, r'TagProof::verify$', kinds=('call',)) if any(strip(e.args[0]) in (fld(t.res, 'Ok:0'),) for t in tags)]
        if not pr and lost(s): ctx.unk(key + 'proof', 'unresolved calls')
        else: needed(ctx, key + 'proof', s, okc, pr, 'reported as committed although the record tags were not verified')
        vm = tags[0].args[0]
        executed(ctx, key, s, okc, tags, pr, 'the tags are checked before they were computed')
        st = fld(v, 'state')
        ctx.value(key + 'state.keys', fld(st, 'keys'), keys, 'the committed state holds the keys the tags were verified with', s.loc, care=okc)
        ctx.value(key + 'state.transcript', fld(st, 'tls_transcript'), tt, 'the committed state holds the transcript whose tags were verified', s.loc, care=okc)
    passed_on(ctx)

def executed(ctx, key, s, okc, prep, proofs, msg):
    """the computation prepared by `prep` was executed, on the machine it was prepared on, before the proofs were verified"""
    ex = ctx.events(s, r'::execute_all$', kinds=('call',))
    if not ex:
        if lost(s): ctx.unk(key + 'execute', 'unresolved calls')
        else: ctx.bad(key + 'execute', msg + ': the joint computation is never executed', s.loc)
        return
    order = {id(e): i for i, e in enumerate(s.events)}
    last = max([order[id(e)] for e in prep]); first = min([order[id(e)] for e in proofs] or [1 << 30])
    es = [e for e in ex if last < order[id(e)] < first]
    es = [e for e in es if any(strip(e.args[0]) is strip(p.args[0]) for p in prep)]
    needed(ctx, key + 'execute', s, okc, es, msg)

def proxied(ctx, key, s, src):
    """the transcript is derived from the bytes that were forwarded, in their directions"""
    rd = ctx.events(s, r'InspectReader::new$', kinds=('call',))
    sp = {e.res: e for e in ctx.events(s, r'::split$', kinds=('call',))}
    side = {}
    for e in rd:
        x = strip(e.args[0])
        if x.op != 'fld' or x.a[0] not in sp: continue
        peer = strip(sp[x.a[0]].args[0])
        side[e.res] = 'server' if peer is s.args[1] else 'prover' if any(fld(n.res, 'Ok:0') is peer for n in ctx.events(s, r'new_stream$', kinds=('call',))) else None
    if len(side) != 2 or set(side.values()) != {'server', 'prover'}: ctx.unk(key + 'bytes', 'the readers of the two connections were not recognised'); return
    for i, want, d in ((1, 'prover', 'sent'), (2, 'server', 'received')):
        a = src.args[i]
        got = {side[c] for c in side if c in subterms(a)} if a.op != 'eff' else {side.get(a.a[0])}
        if a.op == 'eff' and got == {want}: ctx.ok(key + 'bytes.' + d)
        elif got and got <= {'server', 'prover'} and got != {want}: ctx.bad(key + 'bytes.' + d, 'the %s transcript is not derived from the bytes the %s sent' % (d, want), s.loc)
        else: ctx.unk(key + 'bytes.' + d, 'not recognised: ' + show(a)[:200])
    t = strip(src.args[3])
    w = [e for e in ctx.events(s, r'first_read$', kinds=('call',)) if e.res in subterms(t)]
    if w: 
        c = [side[k] for e in w for k in side if k in subterms(e.args[0]) and (strip(e.args[0]) is k)]
        if c and c[0] != 'prover': ctx.bad(key + 'time', 'the time of the connection is not that of the first bytes the prover sent', s.loc)
        else: ctx.ok(key + 'time')

def passed_on(ctx):
    """a committed session keeps its keys, transcript and machine"""
    for ty, name in (('Committed', 'verify'), ('Verify', 'accept'), ('Verify', 'reject')):
        f = ctx.fn('tlsn::verifier::Verifier::<tlsn::verifier::state::%s>::%s' % (ty, name))
        if not f: continue
        s = ctx.summ(f, stop=STOP, asyn=True); okc = returns(s); v = okval(s); key = 'keep.%s.' % name
        if v is None: ctx.unk(key, 'the result was not recognised'); continue
        st = fld(fld(v, '1') if name == 'accept' else v, 'state'); mine = fld(s.args[0], 'state')
        for n in ('keys', 'tls_transcript'): ctx.value(key + n, strip(fld(st, n)), fld(mine, n), 'the session keeps its %s' % n, s.loc, care=okc)
    only_made(ctx, 'made', 'tlsn::verifier::state::Committed', ('CommitAccepted<tlsn::Mpc>>::run', 'CommitAccepted<tlsn::Proxy>>::run', 'state::Verify>::accept', 'state::Verify>::reject'), 'a session is reported as committed')

def passed_args(ctx):
    """what the verification is asked for is what the session and the prover's message say"""
    f = ctx.fn('tlsn::verifier::Verifier::<tlsn::verifier::state::Verify>::accept')
    if not f: return
    s = ctx.summ(f, stop=STOP, asyn=True); okc = returns(s); v = okval(s); me = fld(s.args[0], 'state')
    es = calls(ctx, 'accept.verify', s, r'verifier::verify::verify$', 'the request is accepted without being verified')
    if not es: return
    needed(ctx, 'accept.verify', s, okc, es, 'accepted although the verification failed')
    for e in es:
        for i, n in ((2, 'keys'), (4, 'tls_transcript'), (5, 'request'), (6, 'handshake'), (7, 'transcript')):
            argis(ctx, 'accept.arg.' + n, e, i, fld(me, n), 'the verification is given the %s of the session' % n, okc, s.loc)
        new = ctx.events(s, r'ServerCertVerifier::new$', kinds=('call',))
        c = strip(e.args[3])
        if any(fld(n.res, 'Ok:0') is c for n in new):
            n = [n for n in new if fld(n.res, 'Ok:0') is c][0]
            rs = ctx.events(s, r'root_store$', kinds=('call',))
            want = rs[0].res if rs else fld(fld(s.args[0], 'config'), 'root_store')
            ctx.value('accept.roots', n.args[0], want, 'certificates are verified against the configured roots', s.loc)
        else: ctx.unk('accept.roots', 'the certificate verifier was not recognised')
        if v is not None: ctx.same('accept.output', AND(okc, OR(1 if fld(v, '0') is okvals(e)[0] else 0, 1 if fld(v, '0') is okvals(e)[1] else 0)), okc, 'the reported output is that of the verification', s.loc)
    f = ctx.fn('tlsn::verifier::Verifier::<tlsn::verifier::state::Committed>::verify')
    if not f: return
    s = ctx.summ(f, stop=STOP, asyn=True); okc = returns(s); v = okval(s)
    es = calls(ctx, 'receive', s, r'expect_next$', 'no request is received')
    if not es or v is None: return
    m = fld(outc(es[0]), 'Ok:0')
    for n in ('request', 'handshake', 'transcript'): ctx.value('receive.' + n, fld(fld(v, 'state'), n), fld(m, n), 'the %s verified is the one that was received' % n, s.loc, care=okc)

def S02(ctx):
    """a verifier accepts a proving request only if every part is consistent"""
    begin(ctx)
    passed_args(ctx)
    f = ctx.fn('tlsn::verifier::verify::verify')
    if not f: return
    s = ctx.summ(f, stop=VSTOP, asyn=True); okc = returns(s); v = okval(s)
    cx, vm, keys, cv, tt, req, hs, tr = s.args
    if v is None: ctx.bad('result', 'no request is ever accepted', s.loc); return
    rev = [e.res for e in ctx.events(s, r'ProveRequest::reveal$', kinds=('call',)) if strip(e.args[0]) is req]
    tc = [e.res for e in ctx.events(s, r'transcript_commit$', kinds=('call',)) if strip(e.args[0]) is req]
    rev = rev[0] if rev else fld(req, 'reveal'); tc = tc[0] if tc else fld(req, 'transcript_commit')
    revealed = c_is(rev, V.OPT, 'Some'); given = c_is(tr, V.OPT, 'Some'); tv = fld(tr, 'Some:0')
    free = outcomes(ctx, s)
    def req_(key, g, msg, when=1, lostc=None):
        if lostc and lost(s): ctx.unk(key, msg + ': unresolved calls'); return
        ctx.require(key, AND(okc, when), g, msg, s.loc, vocab=free)
    # disclosed transcript
    req_('reveal.given', given, 'data are to be revealed but no transcript was received', revealed)
    ct = {}
    for d, m in (('sent', 'len_sent'), ('recv', 'len_received')):
        X = fld(tt, d); e = V.elem(X)
        app = c_is(fld(e, 'typ'), 'tlsn_core::transcript::tls::ContentType', 'ApplicationData')
        ct[d] = V.mkseq([T('s', T('flat', T('filter', X, V.Bt(app)), V.mkseq([T('s', fld(e, 'ciphertext'))])))])
    def of_tr(rx):
        return [x.res for x in ctx.events(s, rx, kinds=('call',)) if x.args and strip(x.args[0]) is tv]
    for d, m in (('sent', r'::len_sent$'), ('recv', r'::len_received$')):
        g = ORS(*[c_eq(x, length(ct[d])) for x in of_tr(m)])
        req_('length.' + d, g, 'the disclosed transcript does not have the committed length (%s)' % d, revealed, lostc=not of_tr(m))
    rv = fld(rev, 'Some:0')
    for i, m, d in ((0, r'::sent_authed$', 'sent'), (1, r'::received_authed$', 'recv')):
        want = fld(rv, str(i))
        g = ORS(*[eqs(s, x, want) for x in of_tr(m)])
        other = [y for k in B.support(okc) for t in [V.ATOMS[k][1]] if t.op == 'eq' for x, y in ((strip(t.a[0]), strip(t.a[1])), (strip(t.a[1]), strip(t.a[0]))) if x in of_tr(m)]
        if other and all(y is fld(rv, str(1 - i)) for y in other):
            ctx.bad('authed.' + d, 'the authenticated ranges of the disclosed transcript (%s) are compared with those of the other direction' % d, s.loc); continue
        req_('authed.' + d, g, 'the authenticated ranges of the disclosed transcript are not those requested (%s)' % d, revealed, lostc=not of_tr(m))
    # certificate
    named = c_is(hs, V.OPT, 'Some'); name = fld(fld(hs, 'Some:0'), '0'); data = fld(fld(hs, 'Some:0'), '1')
    bind = [e.res for e in ctx.events(s, r'certificate_binding$', kinds=('call',)) if strip(e.args[0]) is tt]
    bind = bind[0] if bind else fld(tt, 'certificate_binding')
    hv = ctx.events(s, r'HandshakeData::verify$', kinds=('call',))
    if not hv and lost(s): ctx.unk('cert', 'unresolved calls')
    else: req_('cert', ORS(*[AND(e.cond, is_ok(e.res)) for e in hv]), 'a server name is accepted although the certificate was not verified', named)
    for e in hv:
        for i, want, what in ((0, data, 'the handshake data of the prover are verified'), (1, cv, 'they are verified with the configured verifier'), (2, fld(tt, 'time'), 'at the time of the session'),
                              (3, fld(fld(bind, 'V1_2:0'), 'server_ephemeral_key'), 'for the key exchange of the session'), (4, name, 'for the name that is reported')):
            argis(ctx, 'cert.arg%d' % i, e, i, want, what, okc, s.loc)
    out = fld(v, 'server_name')
    ctx.require('name.only', AND(okc, c_is(out, V.OPT, 'Some')), named, 'a server name is reported although none was proven', s.loc, vocab=free)
    ctx.value('name.value', fld(out, 'Some:0'), name, 'the reported name is the one the certificate was verified for', s.loc, care=ANDS(okc, named, c_is(out, V.OPT, 'Some')))
    # plaintexts
    vp = ctx.events(s, r'verify_plaintext$', kinds=('call',))
    pf = ctx.events(s, r'PlaintextProof::verify$', kinds=('call',))
    used = []
    for d, side, k, uns, auth in (('sent', 'Sent', 'client', 'sent_unsafe', 'sent_authed'), ('recv', 'Received', 'server', 'received_unsafe', 'received_authed')):
        X = fld(tt, d); key = 'plain.%s.' % d; dn = 'sent' if d == 'sent' else 'received'
        es = [e for e in vp if strip(e.args[1]) is fld(keys, k + '_write_key')]
        if not es:
            if lost(s) or any(strip(e.args[1]).op not in ('fld', 'arg') for e in vp): ctx.unk(key + 'call', 'the verification of the %s plaintext was not recognised' % dn)
            else: ctx.bad(key + 'call', 'the %s plaintext is not verified under its key' % dn, s.loc)
            continue
        needed(ctx, key + 'call', s, okc, es, 'accepted although the %s plaintext was not verified' % dn)
        for e in es:
            used.append(e)
            argis(ctx, key + 'iv', e, 2, fld(keys, k + '_write_iv'), 'the %s plaintext is verified under its implicit nonce' % dn, okc, s.loc)
            ciphertext(ctx, key + 'ciphertext', s, okc, e, d, tt, ct, 'the plaintext is verified against the %s application data' % dn)
            recs = strip(e.args[5])
            while recs.op == 'iter': recs = recs.a[0]
            ctx.value(key + 'records', M.materialize(recs) if recs.op in ('filter', 'map') else recs, M.materialize(T('filter', X, V.Bt(c_is(fld(V.elem(X), 'typ'), 'tlsn_core::transcript::tls::ContentType', 'ApplicationData')))), 'the %s application data records are verified' % dn, s.loc, care=okc)
            for i, rx, what in ((3, uns, 'plaintext'), (6, auth, 'authenticated ranges')): disclosed(ctx, key + ('data' if i == 3 else 'ranges'), s, okc, strip(e.args[i]), rx, tv, revealed, ct, 'the %s %s verified are those disclosed' % (dn, what))
            committed(ctx, key + 'commit', s, okc, strip(e.args[7]), tc, side, 'the ranges verified include every committed range of the %s data' % dn)
        p = [x for x in pf if any(strip(x.args[0]) is fld(fld(e.res, 'Ok:0'), '1') for e in es)]
        if not p and lost(s): ctx.unk(key + 'proof', 'unresolved calls')
        else:
            needed(ctx, key + 'proof', s, okc, p, 'accepted although the %s plaintext was not authenticated' % dn)
            executed(ctx, key, s, okc, es, p, 'the %s plaintext is checked before it was computed' % dn)
    # commitments
    vh = ctx.events(s, r'::verify_hash$', kinds=('call',)); rc = ctx.events(s, r'HashCommitFuture::try_recv$', kinds=('call',))
    cfg = fld(tc, 'Some:0'); L = fld(cfg, 'hash')
    hashed_ = AND(c_is(tc, V.OPT, 'Some'), NOT(c_eq(length(L), I(0))))
    if not vh and lost(s): ctx.unk('hash', 'unresolved calls')
    else: req_('hash', ORS(*[AND(e.cond, is_ok(e.res)) for e in vh]), 'accepted although the requested hash commitments were not computed', hashed_)
    for e in vh:
        want = {0: None}
        if len(used) == 2:
            r = strip(e.args[1])
            for n, u, w in (('sent', used[0], used[1]), ('recv', used[1], used[0])):
                if strip(fld(r, n)) is fld(fld(w.res, 'Ok:0'), '0'): ctx.bad('hash.refs.' + n, 'the commitments to %s data are computed over the data of the other direction' % n, s.loc); continue
                ctx.value('hash.refs.' + n, fld(r, n), fld(fld(u.res, 'Ok:0'), '0'), 'the commitments are computed over the verified %s data' % n, s.loc, care=AND(okc, e.cond))
        it = strip(e.args[2])
        while it.op == 'iter': it = it.a[0]
        ctx.value('hash.of', it, L, 'the commitments are those requested', s.loc, care=AND(okc, e.cond))
        p = [x for x in rc if strip(x.args[0]) is fld(e.res, 'Ok:0')]
        if not p and lost(s): ctx.unk('hash.value', 'unresolved calls')
        else: req_('hash.value', ORS(*[AND(x.cond, is_ok(x.res)) for x in p]), 'accepted although the values of the commitments were not obtained', hashed_)
        for x in p: 
            order = {id(y): i for i, y in enumerate(s.events)}
            if all(order[id(y)] > order[id(x)] for y in ctx.events(s, r'::execute_all$', kinds=('call',))): ctx.bad('hash.order', 'the commitments are read before they were computed', s.loc)
            else: ctx.ok('hash.order')
            reported(ctx, s, okc, fld(v, 'transcript_commitments'), fld(x.res, 'Ok:0'), hashed_)
    # the report
    o = fld(v, 'transcript')
    ctx.same('report.transcript', c_is(o, V.OPT, 'Some'), revealed, 'a transcript is reported exactly if data were to be revealed', s.loc, care=okc, vocab=free)
    ctx.value('report.value', fld(o, 'Some:0'), tv, 'the reported transcript is the verified one', s.loc, care=AND(okc, revealed))

def returns(s):
    """accepted (a panic is no answer)"""
    return AND(okcond(s), NOT(ORS(0, 0, *[e.cond for e in s.events if e.kind == 'call' and re.search(r'panic', e.path)])))
def eqs(s, a, b):
    """the two values were compared and are equal"""
    c = c_eq(a, b)
    for k in B.support(okcond(s)):
        t = V.ATOMS[k][1]
        if t.op == 'eq' and {strip(t.a[0]), strip(t.a[1])} == {a, b}: c = OR(c, V.bvar(t))
    return c
def ciphertext(ctx, key, s, okc, e, d, tt, ct, msg):
    v = strip(e.args[4])
    y = v
    while y.op == 'seq' and len(y.a) == 1 and y.a[0].op == 's': y = y.a[0].a[0]
    if y.op == 'flat' and y.a[0].op in ('filter', 'fld') and y.a[1].op == 'seq' and len(y.a[1].a) == 1:
        X, c = (y.a[0].a[0], V.cond(y.a[0].a[1])) if y.a[0].op == 'filter' else (y.a[0], 1)
        el = V.elem(fld(tt, d))
        if X is fld(tt, 'recv' if d == 'sent' else 'sent'): ctx.bad(key, '%s: it is verified against the records of the other direction' % msg, s.loc); return
        if X is fld(tt, d) and y.a[1].a[0].a[0] is fld(el, 'ciphertext'):
            ctx.same(key, c, c_is(fld(el, 'typ'), 'tlsn_core::transcript::tls::ContentType', 'ApplicationData'), msg, s.loc); return
    argis(ctx, key, e, 4, ct[d], msg, okc, s.loc)
def disclosed(ctx, key, s, okc, x, rx, tv, revealed, ct, msg):
    if x.op == 'call' and x.a[0].split('::')[-1] == rx: inner = x.a[2]
    elif x.op == 'fld': inner = x.a[0]
    else: ctx.unk(key, msg + ': not recognised: ' + show(x)[:200]); return
    r = V.T('undef', 'x')
    ctx.value(key, under(strip(inner), AND(okc, revealed)), tv, msg, s.loc, care=AND(okc, revealed))
def committed(ctx, key, s, okc, x, tc, side, msg):
    """the set contains the ranges of every commitment of that direction"""
    L = fld(fld(tc, 'Some:0'), 'hash'); e = V.elem(L)
    is_side = c_is(fld(e, '0'), 'tlsn_core::transcript::Direction', side)
    some = AND(okc, c_is(tc, V.OPT, 'Some'))
    v = under(x, some)
    if v.op == 'fold' and v.a[0] is L:
        acc = T('acc'); step = v.a[2]
        def grown(t):
            """the step unites the accumulated set with the ranges of the element"""
            while t.op in ('ref', 'deref'): t = t.a[0]
            if t.op == 'eff': t = t.a[0]
            return t.op == 'call' and re.search(r'union(_mut)?$', t.a[0]) and {strip(y) for y in t.a[2:]} == {acc, fld(e, '1')}
        inc = ORS(0, 0, *[c for c, y in alts(step) if grown(y)])
        other = [y for c, y in alts(step) if not grown(y) and y is not acc and not (y.op == 'arg')]
        if other: ctx.unk(key, msg + ': step not recognised: ' + show(step)[:200]); return
        ctx.require(key, AND(some, is_side), inc, msg, s.loc, strict=True)
    elif not contains(v, lambda y: y is e or y is L): ctx.bad(key, '%s: the set is %s' % (msg, show(v)[:200]), s.loc)
    else: ctx.unk(key, msg + ': not recognised: ' + show(v)[:200])
def reported(ctx, s, okc, x, vals, when):
    care = AND(okc, when); key = 'hash.reported'
    v = under(x, care); vals = under(vals, care)
    vs = [y for c, y in alts(v) if AND(c, care) != 0]
    good = [y for y in vs if elementwise(s, y, vals)]
    if len(good) == len(vs): ctx.ok(key)
    elif any(not contains(y, lambda z: z is vals or z is V.elem(vals)) and not contains(y, lambda z: z.op == 'lv') for y in vs): ctx.bad(key, 'the commitments reported are not those computed: ' + show(v)[:300], s.loc)
    else: ctx.unk(key, 'the reported commitments were not recognised: ' + show(v)[:300])
def elementwise(s, y, vals):
    """every element of vals, in order, as a hash commitment"""
    while y.op == 'seq' and len(y.a) == 1 and y.a[0].op == 's': y = y.a[0].a[0]
    p = None
    if y.op in ('coll', 'map') and y.a[0] is vals: p = y.a[1]
    elif y.op == 'flat' and y.a[0] is vals and len(y.a[1].a) == 1: p = y.a[1].a[0].a[0]
    elif y.op == 'fold' and y.a[0] is vals and y.a[1] is T('seq') and y.a[2].op == 'seq' and [q.op for q in y.a[2].a] == ['s', 'e'] and y.a[2].a[0].a[0] is T('acc'): p = y.a[2].a[1].a[0]
    return p is not None and p.op == 'agg' and p.a[1] == 'Hash' and p.a[3] is V.elem(vals)
def only_made(ctx, key, adt, makers, msg):
    made = [g for g in sorted(ctx.db.fns) if builds(ctx, g, adt)]
    if not made: ctx.unk(key, 'no construction of %s was found' % adt); return
    base = lambda f: re.sub(r'(::\{closure#\d+\})+$', '', f)
    for g in made:
        h = base(g); k = '%s.%s' % (key, h.split('::')[-1])
        if any(h.endswith(x) for x in makers): ctx.ok(k)
        else: reached_only(ctx, k, h, [h], '(' + '|'.join(re.escape(x) for x in makers) + r')(::\{closure#\d+\})*$', msg)
def answers(ctx, s):
    """[(event, when the answer sent is a refusal, when it is an acceptance)]"""
    out = []
    for e in ctx.events(s, r'::send$', kinds=('call',)):
        r = fld(e.args[1], 'result')
        out.append((e, AND(e.cond, c_is(r, 'core::result::Result', 'Err')), AND(e.cond, c_is(r, 'core::result::Result', 'Ok'))))
    return out
def S04(ctx):
    """incompatible peers are refused"""
    begin(ctx)
    f = ctx.fn('tlsn::verifier::Verifier::commit')
    if f:
        s = ctx.summ(f, stop=STOP, asyn=True); okc = returns(s); v = okval(s); free = outcomes(ctx, s)
        es = calls(ctx, 'version', s, r'expect_next$', 'no request is received')
        if es and v is not None:
            m = fld(outc(es[0]), 'Ok:0'); ver = fld(m, 'version'); cfg = fld(m, 'config')
            is_own = lambda x: contains(x, lambda y: y.op in ('clo', 'static', 'const', 'fn') and any(isinstance(z, str) and 'tlsn::VERSION' in z for z in y.a))
            same = [V.bvar(V.ATOMS[k][1]) for c in [okc] + [e.cond for e in s.events] for k in B.support(c)
                    if V.ATOMS[k][1].op == 'eq' and any(strip(a) is ver and is_own(b) for a, b in (V.ATOMS[k][1].a[:2], V.ATOMS[k][1].a[1::-1]))]
            eq = ORS(0, 0, *set(same))
            if not same and contains_ver(okc, ver): ctx.unk('version', 'the comparison of the versions was not recognised')
            else:
                ctx.require('version', okc, eq, 'a session is started with a peer of another version', s.loc, strict=not same, vocab=free)
                an = answers(ctx, s)
                ctx.require('version.refused', ANDS(es[0].cond, is_ok(outc(es[0])), NOT(eq)), ORS(0, 0, *[r for e, r, o in an]), 'a peer of another version is not told that it is refused', s.loc, vocab=free)
                for e, r, o in an: ctx.require('commit.answer', o, 0, 'the configuration is accepted before the application decided', s.loc)
            for n in ('Mpc', 'Proxy'):
                here = ANDS(okc, c_is(v, 'tlsn::verifier::VerifierCommitStart', n)); k = 'commit.' + n.lower()
                ctx.require(k, here, c_is(cfg, 'tlsn_core::config::tls_commit::TlsCommitConfig', n), 'the %s protocol is started although the prover proposed another' % n, s.loc, vocab=free)
                ctx.value(k + '.config', under(fld(fld(v, n + ':0'), 'state.config'), here), cfg, 'the configuration put to the application is the one the prover proposed', s.loc, care=here)
    f = ctx.fn('tlsn::verifier::Verifier::<tlsn::verifier::state::CommitStart<P>>::accept')
    if f:
        s = ctx.summ(f, stop=STOP, asyn=True); okc = returns(s); v = okval(s); free = outcomes(ctx, s)
        an = answers(ctx, s)
        if not an and lost(s): ctx.unk('accept', 'unresolved calls')
        else: ctx.require('accept', okc, ORS(0, 0, *[AND(o, okf(e)) for e, r, o in an]), 'the session is set up although the acceptance was not sent', s.loc, vocab=free)
        for e, r, o in an: ctx.require('accept.answer', r, 0, 'an accepted configuration is answered with a refusal', s.loc)
        st = calls(ctx, 'accept.setup', s, r'VerifierDeps::setup$', 'the session is not set up')
        if st and an:
            needed(ctx, 'accept.setup', s, okc, st, 'accepted although the setup failed')
            order = {id(e): i for i, e in enumerate(s.events)}
            for e in st:
                if any(order[id(e)] < order[id(a)] for a, r, o in an): ctx.bad('accept.order', 'the session is set up before the acceptance is sent', s.loc)
                else: ctx.ok('accept.order')
            new = ctx.events(s, r'VerifierDeps::new$', kinds=('call',))
            for e in new: argis(ctx, 'accept.config', e, 0, fld(s.args[0], 'state.config'), 'the session is set up with the accepted configuration', okc, s.loc)
            if v is not None and new:
                d = strip(fld(v, 'state.deps'))
                ctx.value('accept.deps', d, new[0].res, 'the session runs on what was set up', s.loc, care=okc)
    for ty in ('CommitStart<P>', 'Verify'):
        f = ctx.fn('tlsn::verifier::Verifier::<tlsn::verifier::state::%s>::reject' % ty)
        if not f: continue
        s = ctx.summ(f, stop=STOP, asyn=True); okc = returns(s); an = answers(ctx, s); k = 'reject.' + ty.split('<')[0]
        if not an and lost(s): ctx.unk(k, 'unresolved calls'); continue
        ctx.require(k, okc, ORS(0, 0, *[AND(r, okf(e)) for e, r, o in an]), 'a refusal is not sent', s.loc, vocab=outcomes(ctx, s))
        for e, r, o in an: ctx.require(k + '.answer', o, 0, 'a refused proposal is answered with an acceptance', s.loc)
    for f, k in (('ok', 'Ok'), ('err', 'Err')):
        g = ctx.fn('tlsn::msg::Response::' + f)
        if g:
            s = ctx.summ(g)
            ctx.require('answer.' + f, 1, c_is(fld(s.ret, 'result'), 'core::result::Result', k), 'the answer does not say what it is meant to say', s.loc, strict=True)
    only_made(ctx, 'start', 'tlsn::verifier::state::CommitStart', ('Verifier::commit', 'state::Initialized>::commit'), 'a session is proposed without comparing the versions')
    only_made(ctx, 'accepted', 'tlsn::verifier::state::CommitAccepted', ('CommitStart<P>>::accept',), 'a session is started without the application having accepted it')
def contains_ver(c, ver): return any(contains(V.ATOMS[k][1], lambda y: y is ver) for k in B.support(c))
