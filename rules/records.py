"""Record layer framing: T12-T15."""
from rules import *
from mirval import *
import mirval as V, models
from wirelib import *
from wire import A, P, en, st, st_tuple, tup, payload, nonempty, somev, no_panic, EN, M, H

OM = M + 'message::OpaqueMessage'
MERR = M + 'message::MessageError'
def byte(b, i): return V.proj(b, ('i', I(i)))
def be(w, b, i): return V.mk_unbe(w, V.mkslice(b, I(i), I(i + w // 8)))
def oneof(x, vals, w=8): return ORS(*[V.c_eqint(x, v, w) for v in vals])
MAXP = 16384 + 2048

# ---------------------------------------------------------------- T12
def header(b):
    """(header present, content type known, version acceptable, length acceptable, body present, body length)"""
    t, v, n = byte(b, 0), be(16, b, 1), be(16, b, 3)
    V.WIDTH.setdefault(t, 8)
    hdr = c_le(I(5), length(b))
    typ = oneof(t, [20, 21, 22, 23, 24])
    ver = OR(oneof(v, [0x0200, 0xfeff, 0xfefd, 0xfefc], 16), oneof_hi(v, 3))
    ln = AND(NOT(c_le(I(MAXP), n)), OR(NOT(V.c_eqint(n, 0, 16)), V.c_eqint(t, 23, 8)))
    body = c_le(V.add(I(5), n), length(b))
    return hdr, typ, ver, ln, body, n
def oneof_hi(v, hi):
    """v & 0xff00 == hi << 8"""
    return AND(c_le(I(hi << 8), v), c_le(v, I((hi << 8) | 255)))
def T12(ctx):
    """OpaqueMessage::read over an arbitrary buffer: accepted iff header well formed and body complete; the error kind separates
    'may become valid with more bytes' from 'can never become valid'; type, version and payload are those received; exactly the
    record is consumed; encode is the inverse."""
    f = ctx.fn('msgs::message::OpaqueMessage::read')
    if f is None: return
    b = T('arg', 'buf')
    s = decode(ctx, f, b, hook=lambda *a: None)
    hdr, typ, ver, ln, body, n = header(b)
    known_dtls = None
    ok = ANDS(hdr, typ, ver, ln, body)
    # the three DTLS code points the crate may know are don't-care (the statement speaks of known versions)
    pv = ctx.db.adts.get(EN + 'ProtocolVersion')
    v = be(16, b, 1)
    care = NOT(oneof(v, [0xfeff, 0xfefd, 0xfefc, 0x0200], 16))
    ctx.same('T12.accepted', okcond(s), ok, 'records accepted', s.loc, care=care)
    dt = NOT(care)
    got = okval(s)
    if got is None: ctx.bad('T12.value', 'no record is ever accepted', s.loc); return
    okc = okcond(s)
    ctx.require('T12.accepted-any', okc, ANDS(hdr, typ, ln, body), 'a record is accepted whatever its version although header, type, length or body are not in order', s.loc)
    ctx.value('T12.payload', fld(got, 'payload.0'), V.mkslice(b, I(5), V.add(I(5), n)), 'the payload is exactly the announced bytes', s.loc, care=okc)
    tt_, vv = fld(got, 'typ'), fld(got, 'version')
    for code, name in ((20, 'ChangeCipherSpec'), (21, 'Alert'), (22, 'Handshake'), (23, 'ApplicationData'), (24, 'Heartbeat')):
        cc = AND(okc, V.c_eqint(byte(b, 0), code, 8))
        ctx.require('T12.type.' + name, cc, discr_is(tt_, EN + 'ContentType', name), 'the content type is the one received', s.loc)
    for code, name in ((0x0300, 'SSLv3'), (0x0301, 'TLSv1_0'), (0x0302, 'TLSv1_1'), (0x0303, 'TLSv1_2'), (0x0304, 'TLSv1_3')):
        cc = AND(okc, V.c_eqint(v, code, 16))
        ctx.require('T12.version.' + name, cc, discr_is(vv, EN + 'ProtocolVersion', name), 'the version is the one received', s.loc)
    unkc = AND(okc, AND(c_le(I(0x0305), v), c_le(v, I(0x03ff))))
    ctx.require('T12.version.unknown', unkc, discr_is(vv, EN + 'ProtocolVersion', 'Unknown'), 'an unknown version is kept as such', s.loc)
    ctx.value('T12.version.unknown.value', fld(vv, 'Unknown:0'), v, 'and its code point is kept', s.loc, care=unkc)
    ctx.value('T12.consumed', fld(s.after, 'offs'), V.add(I(5), n), 'exactly the record is consumed', s.loc, care=okc)
    # errors: prefix of a possibly valid record <-> TooShort*
    short = 0; other = 0
    for c, r in alts(s.ret):
        e = fld(r, 'Err:0') if not (r.op == 'agg' and r.a[1] == 'Ok') else None
        if e is None: continue
        bad = AND(c, NOT(is_ok(r)))
        ts = discr_is(e, MERR, 'TooShortForHeader', 'TooShortForLength')
        short = OR(short, AND(bad, ts)); other = OR(other, AND(bad, NOT(ts)))
    prefix = OR(NOT(hdr), ANDS(typ, ver, ln, NOT(body)))
    ctx.same('T12.prefix', short, prefix, 'a prefix of a possibly valid record (and nothing else) asks for more bytes', s.loc, care=care)
    no_panic(ctx, 'T12.total', s)
    # conversions between the record types move the fields over
    for nm, src, dst in (('message::OpaqueMessage::into_plain_message', OM, 'PlainMessage'), ('message::PlainMessage::into_unencrypted_opaque', M + 'message::PlainMessage', 'OpaqueMessage'),
                         ('message::PlainMessage::borrow', M + 'message::PlainMessage', 'BorrowedPlainMessage')):
        f = ctx.fn('msgs::' + nm)
        if f is None: continue
        s = ctx.summ(f); x = s.args[0]
        ctx.value('T12.%s.typ' % nm, fld(s.ret, 'typ'), fld(x, 'typ'), 'content type carried over', s.loc)
        ctx.value('T12.%s.version' % nm, fld(s.ret, 'version'), fld(x, 'version'), 'version carried over', s.loc)
        p = fld(s.ret, 'payload')
        ctx.value('T12.%s.payload' % nm, p if dst == 'BorrowedPlainMessage' else fld(p, '0'), fld(x, 'payload.0'), 'payload carried over', s.loc)
    f = ctx.fn('msgs::message::OpaqueMessage::encode')
    if f is not None:
        with fits():
            s = ctx.summ(f, hook=enc_hook(f)); x = s.args[0]
            spec = V.mkseq([encseg(EN + 'ContentType', fld(x, 'typ')), encseg(EN + 'ProtocolVersion', fld(x, 'version')), T('s', V.mk_be(16, length(fld(x, 'payload.0')))), T('s', fld(x, 'payload.0'))])
            ctx.value('T12.encode', s.ret, spec, 'a record is written as type, version, length, payload', s.loc)

# ---------------------------------------------------------------- state machines
def machine(s, root):
    """loops of a summary that carry the state reached through argument `root`"""
    out = []
    for lid, info in s.engine.loops.items():
        for lv in info['init']:
            if str(lv.a[-1]) == statekey(root) or rootof(V.LVINFO.get(lv, (None, None))[1], root): out.append((info, lv)); break
    return out
def carried(info, L):
    """a reason not to judge the loop by its own state alone: its continuation is decided by a value computed in the previous round
    (`x = step(s); while good(x) { x = step(s) }`), so that the state at the loop head is one step ahead"""
    for lv, st_ in info['step'].items():
        if lv is L or V.contains(st_, lambda x: x is lv): continue
        if V.contains(T('cond', info['back']), lambda x: x is lv): return 'the loop carries the outcome of the previous round'
    return None
def statekey(root): return 'T%d' % root.id
def rootof(t, root):
    if t is None: return False
    if t.op == 'choice': return any(rootof(x, root) for _, x in alts(t))
    if t is root: return True
    if t.op == 'upd': return rootof(t.a[0], root)
    if t.op == 'agg': return any(x.op == 'fld' and x.a[0] is root for x in t.a[3:])
    return False
RD = 'record'
def record_hook(eng, fr, np, f, env, args, st_, reach, ln, ta):
    """OpaqueMessage::read as an uninterpreted function of the bytes it is given; by T12 it consumes 5 + announced length"""
    if np == OM + '::read':
        r = get_reader(eng, st_, args[0])
        if r is None or args[0].op != 'mref': return None
        def fn(rem): return T('rdres', RD, rem), V.add(I(5), be(16, rem, 3))
        out = []
        for c, rem in alts(remaining(r)):
            v, n = fn(rem)
            okc = is_ok(v)
            out.append((AND(c, okc), v, advance(eng, st_, args[0], r, n)))
            out.append((AND(c, NOT(okc)), v, advance(eng, st_, args[0], r, T('rdlen', RD, rem))))
        return out
    return None
def T13(ctx):
    """MessageDeframer: one iteration of the deframing loop as a transition of (frames, buf, used, desynced); reads append at the end
    of the pending bytes; the loop goes on exactly while records come out and marks the stream desynchronised exactly on an invalid
    record."""
    D = 'msgs::deframer::MessageDeframer::'
    for m in ('read', 'read_async'):
        f = ctx.fn(D + m)
        if f is None: continue
        s = ctx.summ(f, hook=record_hook, asyn=m.endswith('async'))
        me = s.args[0]
        pend, used0 = fld(me, 'buf'), fld(me, 'used')
        ms = machine(s, me)
        key = 'T13.' + m
        if len(ms) != 1: ctx.unk(key, 'deframing loop not recognised (%d candidates)' % len(ms)); continue
        info, L = ms[0]
        with ctx.soft(carried(info, L)): deframing(ctx, key, s, info, L, me, pend, used0)
    f = ctx.fn(D + 'has_pending')
    if f:
        s = ctx.summ(f); me = s.args[0]
        ctx.same('T13.has_pending', cond(s.ret), OR(nonempty(fld(me, 'frames')), c_le(I(1), fld(me, 'used'))), 'bytes are pending iff a frame is queued or part of a record is buffered', s.loc)
    for nm in ('new',):
        f = ctx.fn(D + nm)
        if f is None: continue
        s = ctx.summ(f)
        n = length(fld(s.ret, 'buf'))
        if is_int(n):
            if n.a[0] < MAXP + 4: ctx.bad('T13.new.room', 'the buffer of %d bytes has no room for a record of the permitted maximum of %d: it is never completed, nor are those after it' % (n.a[0], MAXP + 4), s.loc)
            else: ctx.ok('T13.new.room')
        else: ctx.unk('T13.new.room', show(n)[:120])
        ctx.value('T13.new.used', fld(s.ret, 'used'), I(0), 'a new deframer holds no bytes', s.loc)
        ctx.value('T13.new.frames', length(fld(s.ret, 'frames')), I(0), 'and no frames', s.loc)
        ctx.value('T13.new.desynced', fld(s.ret, 'desynced'), I(0), 'and is synchronised', s.loc)
    writers(ctx, 'T13.writers', M + 'deframer::MessageDeframer', {'used', 'desynced', 'buf'})
def deframing(ctx, key, s, info, L, me, pend, used0):
    ctx.state = {L}
    deframe(ctx, key, s, info, L)
    # what enters the loop
    ini = info['init'][L]
    rdev = [e for e in s.events if e.kind == 'call' and re.search(r'(io::Read|AsyncRead\w*|AsyncReadExt)::read$|::Read::read$', e.path)]
    if len(rdev) != 1: ctx.unk(key + '.io', 'read call not recognised'); return
    e = rdev[0]
    ctx.value(key + '.io.into', e.args[1], V.mkslice(pend, used0, length(pend)), 'bytes are read into the free part of the buffer only', s.loc, care=e.cond)
    for c, x in alts(ini):
        ctx.value(key + '.init.kept', V.mkslice(fld(x, 'buf'), I(0), used0), V.mkslice(pend, I(0), used0), 'pending bytes stay in place', s.loc, care=AND(info['reach'], c))
        ctx.value(key + '.init.frames', fld(x, 'frames'), fld(me, 'frames'), 'finished frames stay', s.loc, care=AND(info['reach'], c))
        ctx.value(key + '.init.desync', fld(x, 'desynced'), fld(me, 'desynced'), 'reading does not repair a desynchronised stream', s.loc, care=AND(info['reach'], c))
        got = V.sub(fld(x, 'used'), used0)
        res = okval(s)
        ctx.value(key + '.init.used', got, res, 'the pending length grows by exactly the bytes read', s.loc, care=AND(info['reach'], c))
    failed = errcond(s)
    fin = s.final(me)
    for fl in ('frames', 'used', 'desynced'):
        ctx.value(key + '.error.' + fl, fld(fin, fl), fld(me, fl), 'a failed read changes nothing', s.loc, care=failed)
    ctx.value(key + '.error.buf', V.mkslice(fld(fin, 'buf'), I(0), used0), V.mkslice(pend, I(0), used0), 'a failed read changes no pending byte', s.loc, care=failed)
def deframe(ctx, key, s, info, L):
    buf, used, frames = fld(L, 'buf'), fld(L, 'used'), fld(L, 'frames')
    rem = V.mkslice(buf, I(0), used)
    R = T('rdres', RD, rem)
    n = V.add(I(5), be(16, buf, 3))
    okc = is_ok(R); er = errv(R)
    short = AND(NOT(okc), discr_is(er, MERR, 'TooShortForHeader', 'TooShortForLength'))
    invalid = AND(NOT(okc), NOT(discr_is(er, MERR, 'TooShortForHeader', 'TooShortForLength')))
    inv = AND(c_le(used, length(buf)), IMPL(okc, c_le(n, used)))
    reach = info['reach']
    care = AND(reach, inv)
    rest = lambda f: B.constrain(f, reach) if reach not in (0, 1) else f
    ctx.same(key + '.continue', info['back'], okc, 'deframing goes on exactly while complete records come out', s.loc, care=care, vocab=B.support(reach))
    nx = info['step'][L]
    c1 = AND(care, okc)
    newused = V.sub(used, n)
    ctx.value(key + '.step.frames', fld(nx, 'frames'), V.mkseq([T('s', frames), T('e', okv(R))]), 'exactly the record just read is appended to the output', s.loc, care=c1)
    ctx.value(key + '.step.used', fld(nx, 'used'), newused, 'exactly the bytes of the record leave the pending bytes', s.loc, care=c1)
    ctx.value(key + '.step.desynced', fld(nx, 'desynced'), fld(L, 'desynced'), 'a good record does not repair a desynchronised stream', s.loc, care=c1)
    c2 = AND(c1, c_le(I(1), newused))
    ctx.value(key + '.step.pending', V.mkslice(fld(nx, 'buf'), I(0), newused), V.mkslice(buf, n, used), 'the bytes after the record stay pending, in order', s.loc, care=c2)
    fin = s.final(s.args[0])
    done = AND(okcond(s), inv)
    for nm, cc, ds in (('partial', AND(done, short), fld(L, 'desynced')), ('invalid', AND(done, invalid), I(1))):
        ctx.value('%s.%s.desynced' % (key, nm), fld(fin, 'desynced'), ds, 'the stream is desynchronised exactly after an invalid record', s.loc, care=cc)
        ctx.value('%s.%s.frames' % (key, nm), fld(fin, 'frames'), frames, 'no frame is added or lost at the end', s.loc, care=cc)
        ctx.value('%s.%s.used' % (key, nm), fld(fin, 'used'), used, 'no byte is added or lost at the end', s.loc, care=cc)
        ctx.value('%s.%s.buf' % (key, nm), V.mkslice(fld(fin, 'buf'), I(0), used), rem, 'pending bytes stay in place', s.loc, care=cc)
def IMPL(a, b): return OR(NOT(a), b)

def field_writes(ctx, adt):
    """{field: {function}} for assignments to fields of `adt` outside construction"""
    out = {}
    short_ = adt
    for fid, fn in ctx.db.fns.items():
        for body in [fn] + fn.get('promoted', []):
            pass
    return out
def writers(ctx, key, adt, fields):
    a = ctx.db.adts.get(adt)
    if a is None: ctx.unk(key, 'type not found'); return
    pub = [f[0] for f in a['variants'][0][2] if f[0] in fields - {'desynced'} and f[2] == 'Public']
    if pub: ctx.bad(key, 'the pending bytes can be changed from outside the deframer: public field %s' % pub, adt)
    else: ctx.ok(key)

# ---------------------------------------------------------------- T14
def joiner_hook(eng, fr, np, f, env, args, st_, reach, ln, ta):
    """HandshakeMessagePayload::read_version as an uninterpreted function; by T09 an accepted message occupies 4 + announced length"""
    HM = H + 'HandshakeMessagePayload'
    if np == HM + '::read_version':
        r = get_reader(eng, st_, args[0])
        if r is None or args[0].op != 'mref': return None
        vv = eng.deepval(st_, eng.val(st_, args[1]))
        out = []
        for c, rem in alts(remaining(r)):
            v = T('rd', HM, vv, rem)
            okc = c_is(v, V.OPT, 'Some')
            out.append((AND(c, okc), v, advance(eng, st_, args[0], r, V.add(I(4), be(24, rem, 1)))))
            out.append((AND(c, NOT(okc)), v, advance(eng, st_, args[0], r, T('rdlen', HM, vv, rem))))
        return out
    return None
def joining(ctx, s, info, L, me, msg):
    ctx.state = {L}
    old, new = fld(me, 'buf'), fld(msg, 'payload.0')
    for i, (c, x) in enumerate(alts(fld(info['init'][L], 'buf'))):
        c = AND(c, info['reach'])
        if AND(c, NOT(c_eq(length(old), I(0)))) == 0 or AND(AND(c, NOT(c_eq(length(old), I(0)))), valid2(c)) == 0: spec = new if x.op != 'seq' else V.mkseq([T('s', old), T('s', new)])
        else: spec = V.mkseq([T('s', old), T('s', new)])
        ctx.value('T14.join.%d' % i, x, spec, 'the payload is appended to the bytes still unread', s.loc, care=c)
    ctx.value('T14.join.frames', fld(info['init'][L], 'frames'), fld(me, 'frames'), 'queued messages stay', s.loc, care=info['reach'])
    b, frames = fld(L, 'buf'), fld(L, 'frames')
    HM = H + 'HandshakeMessagePayload'
    R = T('rd', HM, fld(msg, 'version'), b)
    n = be(24, b, 1)
    hdr = c_le(I(4), length(b))
    big = AND(hdr, c_le(I(0x10000), n))
    full = ANDS(hdr, NOT(c_le(I(0x10000), n)), c_le(V.add(I(4), n), length(b)))
    dec = c_is(R, V.OPT, 'Some')
    ctx.same('T14.continue', info['back'], AND(full, dec), 'joining goes on exactly while complete, acceptable messages come out', s.loc, care=info['reach'])
    nx = info['step'][L]
    go = AND(full, dec)
    ctx.value('T14.step.buf', fld(nx, 'buf'), V.mkslice(b, V.add(I(4), n), length(b)), 'exactly the announced bytes are used for a message', s.loc, care=go)
    want = agg(M + 'message::Message', 'Message', ['version', 'payload'], [fld(msg, 'version'), agg(M + 'message::MessagePayload', 'Handshake', ['0'], [somev(R)])])
    ctx.value('T14.step.frames', fld(nx, 'frames'), V.mkseq([T('s', frames), T('e', want)]), 'exactly that message is queued, under the version it was decoded with', s.loc, care=go)
    okc = okcond(s)
    ctx.same('T14.rejected', errcond(s), OR(big, AND(full, NOT(dec))), 'the input is refused exactly for an oversized announcement or a message that does not decode', s.loc)
    fin = s.final(me)
    ctx.value('T14.done.buf', fld(fin, 'buf'), b, 'an incomplete message stays buffered', s.loc, care=okc)
    ctx.value('T14.done.frames', fld(fin, 'frames'), frames, 'no message is added or lost at the end', s.loc, care=okc)
    # the count
    cnt = okval(s)
    if cnt is not None and cnt.op == 'lv' and cnt in info['init']:
        ctx.value('T14.count.init', info['init'][cnt], I(0), 'the count starts at zero', s.loc)
        ctx.value('T14.count.step', info['step'][cnt], V.add(cnt, I(1)), 'and grows by one for each message', s.loc, care=go)
    elif cnt is not None and cnt.op == 'int': ctx.bad('T14.count', 'the count of queued messages is always %s' % show(cnt), s.loc)
    else: ctx.unk('T14.count', 'count of queued messages not recognised')
def T14(ctx):
    """HandshakeJoiner::take_message as a transition over the joined buffer; is_empty / want_message."""
    J = 'msgs::hsjoiner::HandshakeJoiner::'
    f = ctx.fn(J + 'take_message')
    if f:
        s = ctx.summ(f, hook=joiner_hook)
        me, msg = s.args
        ms = machine(s, me)
        if not ms and not s.engine.loops and all(fld(x, "frames") is fld(me, "frames") for c, x in alts(s.final(me)) if AND(c, okcond(s)) != 0): ctx.bad('T14.loop', 'no message ever comes out', s.loc)
        elif len(ms) != 1: ctx.unk('T14.loop', 'joining loop not recognised (%d candidates)' % len(ms))
        else:
            info, L = ms[0]
            with ctx.soft(carried(info, L)): joining(ctx, s, info, L, me, msg)
    f = ctx.fn(J + 'is_empty')
    if f:
        s = ctx.summ(f)
        ctx.same('T14.is_empty', cond(s.ret), c_eq(length(fld(s.args[0], 'buf')), I(0)), 'alignment is reported iff no byte is left over', s.loc)
    f = ctx.fn(J + 'want_message')
    if f:
        s = ctx.summ(f)
        ctx.same('T14.want', cond(s.ret), discr_is(fld(s.args[1], 'typ'), EN + 'ContentType', 'Handshake'), 'only handshake records are joined', s.loc)
    f = ctx.fn(J + 'new')
    if f:
        s = ctx.summ(f)
        ctx.value('T14.new.buf', length(fld(s.ret, 'buf')), I(0), 'a new joiner holds no bytes', s.loc)
        ctx.value('T14.new.frames', length(fld(s.ret, 'frames')), I(0), 'and no messages', s.loc)
    a = ctx.db.adts.get(M + 'hsjoiner::HandshakeJoiner')
    if a is None: ctx.unk('T14.private', 'type not found')
    elif any(x[0] == 'buf' and x[2] == 'Public' for x in a['variants'][0][2]): ctx.bad('T14.private', 'the unread bytes can be changed from outside', 'HandshakeJoiner')
    else: ctx.ok('T14.private')

# ---------------------------------------------------------------- T15
def T15(ctx):
    """MessageFragmenter: the limit's admissible range, and the fragments produced for a payload of any length."""
    F = 'msgs::fragmenter::MessageFragmenter::'
    for nm in ('set_max_fragment_size', 'new'):
        f = ctx.fn(F + nm)
        if f is None: continue
        s = ctx.summ(f)
        o = s.args[-1]
        x = somev(o)
        okspec = OR(c_is(o, V.OPT, 'None'), AND(c_le(I(32), x), c_le(x, I(16384 + 5))))
        ctx.same('T15.%s.range' % nm, okcond(s), okspec, 'a limit is accepted iff it is absent or between 32 and 16389', s.loc)
        mf = fld(okval(s), 'max_frag') if nm == 'new' else fld(s.final(s.args[0]), 'max_frag')
        ctx.value('T15.%s.given' % nm, mf, V.sub(x, I(5)), 'the payload limit is the configured size without the record header', s.loc, care=AND(okcond(s), c_is(o, V.OPT, 'Some')))
        ctx.value('T15.%s.default' % nm, mf, I(16384), 'without a configured size the payload limit is that of the protocol', s.loc, care=c_is(o, V.OPT, 'None'))
        if nm != 'new': ctx.value('T15.%s.refused' % nm, mf, fld(s.args[0], 'max_frag'), 'a refused limit changes nothing', s.loc, care=NOT(okcond(s)))
    a = ctx.db.adts.get(M + 'fragmenter::MessageFragmenter')
    if a is None: ctx.unk('T15.private', 'type not found')
    elif any(x[2] == 'Public' for x in a['variants'][0][2]): ctx.bad('T15.private', 'the limit can be set without the range check', 'MessageFragmenter')
    else: ctx.ok('T15.private')
    def chunks(p, n): return T('chunks', p, n)
    for nm in ('fragment', 'fragment_borrow'):
        f = ctx.fn(F + nm)
        if f is None: continue
        s = ctx.summ(f)
        lim = fld(s.args[0], 'max_frag')
        if nm == 'fragment':
            m, out = s.args[1], s.args[2]
            typ, ver, pay, path = fld(m, 'typ'), fld(m, 'version'), fld(m, 'payload.0'), M + 'message::PlainMessage'
            wrap = payload
        else:
            typ, ver, pay, out = s.args[1:5]; path = M + 'message::BorrowedPlainMessage'
            wrap = lambda x: x
        ch = chunks(pay, lim)
        frag = lambda x: st(path, typ=typ, version=ver, payload=wrap(x))
        many = V.mkseq([T('s', out), T('s', T('coll', ch, frag(V.elem(ch))))])
        one = V.mkseq([T('s', out), T('e', frag(pay))])
        fin = s.final(out)
        fits_ = c_le(length(pay), lim)
        inv = c_le(I(27), lim)
        for i, (c, x) in enumerate(alts(fin)):
            c = AND(c, inv)
            # a payload that fits is one fragment; both forms denote it when it is not empty
            if AND(c, NOT(fits_)) == 0:
                isone = x.op == 'seq' and len(x.a) == 2 and x.a[1].op == 'e'
                if nm == 'fragment' or isone: ctx.value('T15.%s.single.%d' % (nm, i), x, one, 'a message that fits is passed on whole', s.loc, care=c)
                else: ctx.value('T15.%s.many.%d' % (nm, i), x, many, 'consecutive fragments of at most the limit, each with the type and version of the message', s.loc, care=c)
            else:
                ctx.value('T15.%s.many.%d' % (nm, i), x, many, 'consecutive fragments of at most the limit, each with the type and version of the message', s.loc, care=AND(c, NOT(fits_)))
                inside = ANDS(c, fits_)
                if nm == 'fragment' and inside != 0: ctx.require('T15.fragment.empty.%d' % i, inside, nonempty(pay), 'an empty message still yields a fragment', s.loc)
