"""Server names (T22), randomness (T23), trust anchors, keys and certificate containers (T24)."""
from rules import *
from mirval import *
import mirval as V, models
from wire import A, P, en, st, st_tuple, tup, payload, nonempty, somev, no_panic, EN, M, H
from wirelib import *
from suites import exists, ret

DN = 'tls_core::dns::ServerName'
PKI = 'rustls_pki_types::server_name::'

def dns_hook(eng, fr, np, f, env, args, st_, reach, ln, ta):
    """the DNS name parser as an uninterpreted partial function; a parsed name is the text it was parsed from"""
    if np == 'core::convert::TryFrom::try_from' and ta and ta[0][0] == 'adt' and ta[0][1] == PKI + 'DnsName' or np in (PKI + 'DnsName::try_from_str', PKI + "DnsName::try_from"):
        x = eng.val(st_, args[0])
        ok = bvar(T('isdns', x))
        return [(ok, agg(V.RES, 'Ok', ['0'], [T('dns', x)]), st_), (NOT(ok), agg(V.RES, 'Err', ['0'], [T('dnserr')]), st_)]
    if np in ('core::convert::TryInto::try_into', 'core::str::<impl str>::parse', 'core::str::traits::FromStr::from_str'): return None
    if np.startswith(PKI + 'DnsName') and np.endswith(('::to_owned', '::borrow', '::to_lowercase_owned')):
        x = eng.val(st_, args[0])
        return (1, x if not np.endswith('lowercase_owned') else T('lower', x), st_)
    if np.endswith('core::str::<impl str>::ends_with') or np.endswith('<impl str>::ends_with'):
        x = eng.val(st_, args[0]); p = eng.val(st_, args[1])
        if p is I(46) or p.op == 'str' and p.a[0] == '.': return (1, Bt(enddot(x)), st_)
    if np.endswith('<impl str>::strip_suffix'):
        x = eng.val(st_, args[0]); p = eng.val(st_, args[1])
        if p is I(46) or p.op == 'str' and p.a[0] == '.':
            c = enddot(x)
            return [(c, V.Some(V.mkslice(x, I(0), V.sub(length(x), I(1)))), st_), (NOT(c), V.NONE, st_)]
    return None
def enddot(x): return AND(nonempty(x), V.c_eqint(V.proj(x, ('i', V.sub(length(x), I(1)))), 46, 8))
def undns(t):
    """the text of a name"""
    if t.op == 'dns': return t.a[0]
    if t.op == 'choice': return V.choice([(c, undns(x)) for c, x in alts(t)])
    return t

def T22(ctx):
    """Every constructor of a server name is the DNS parser's success branch; encoding, SNI name and SNI extension as functions of the
    name; a received host name is exactly the bytes that parsed."""
    f = ctx.method('core::convert::TryFrom', DN, 'try_from')
    if f:
        s = ctx.summ(f, hook=dns_hook); x = s.args[0]
        ctx.same('T22.try_from', okcond(s), bvar(T('isdns', x)), 'a name is made from a text iff it is a valid DNS name', s.loc)
        ctx.value('T22.try_from.value', okval(s), agg(DN, 'ServerName', ['0'], [agg(PKI + 'ServerName', 'DnsName', ['0'], [T('dns', x)])]), 'the name is that text', s.loc)
    f = ctx.fn('dns::ServerName::for_sni')
    if f:
        s = ctx.summ(f, hook=dns_hook); n = fld(s.args[0], '0')
        ctx.same('T22.for_sni', okcond(s), c_is(n, PKI + 'ServerName', 'DnsName'), 'only a DNS name is indicated', s.loc)
        ctx.value('T22.for_sni.value', okval(s), fld(n, 'DnsName:0'), 'the indicated name is the name', s.loc)
    f = ctx.fn('dns::ServerName::encode')
    if f:
        s = ctx.summ(f, hook=dns_hook); n = fld(s.args[0], '0')
        d = fld(n, 'DnsName:0')
        ctx.value('T22.encode', s.ret, V.mkseq([T('e', I(1)), T('e', T('trunc', 8, length(d))), T('s', d)]), 'the encoding is type, length and name', s.loc, care=c_is(n, PKI + 'ServerName', 'DnsName'))
    f = ctx.fn('dns::ServerName::into_pki_server_name')
    if f: s = ctx.summ(f); ctx.value('T22.into_pki', s.ret, fld(s.args[0], '0'), 'the name itself', s.loc)
    f = ctx.fn('msgs::handshake::ClientExtension::make_sni')
    if f:
        s = ctx.summ(f, hook=dns_hook); d = s.args[0]
        r = s.ret
        c = enddot(d)
        cut = V.choice([(c, V.mkslice(d, I(0), V.sub(length(d), I(1)))), (NOT(c), d)])
        L = fld(r, 'ServerName:0')
        ctx.same('T22.make_sni.kind', c_is(r, H + 'ClientExtension', 'ServerName'), 1, 'the extension is a server name indication', s.loc)
        ctx.same('T22.make_sni.one', V.c_eq(length(L), I(1)), 1, 'it holds one name', s.loc)
        e0 = V.proj(L, ('i', I(0)))
        ctx.value('T22.make_sni.type', fld(e0, 'typ'), agg(EN + 'ServerNameType', 'HostName', [], []), 'the name is a host name', s.loc)
        for i, w in ((0, 'the bytes sent'), (1, 'the name kept')):
            v = fld(e0, 'payload.HostName:0')
            v = fld(v, str(i)) if v.op != 'tup' else v.a[i]
            if i == 0: v = fld(v, '0')
            ctx.value('T22.make_sni.name.%d' % i, undns(V.unseq(v) if v.op == 'seq' else v), cut, w + ' are the host name without a trailing dot', s.loc)
    f = ctx.fn('msgs::handshake::ServerNamePayload::new_hostname')
    if f:
        s = ctx.summ(f, hook=dns_hook); d = s.args[0]
        hostname(ctx, 'T22.new_hostname', s, s.ret, d, 1)
    f = ctx.fn('msgs::handshake::ServerNamePayload::read_hostname')
    if f:
        b = T('arg', 'buf')
        dh = dec_hook(f)
        def hook(*a): return dns_hook(*a) or dh(*a)
        s = decode(ctx, f, b, hook=hook)
        raw = T('rd', 'tls_core::msgs::base::PayloadU16', b)
        txt = fld(raw, 'Some:0.0')
        ctx.same('T22.read_hostname', okcond(s), AND(c_is(raw, V.OPT, 'Some'), bvar(T('isdns', txt))), 'a received name is accepted iff it is a valid DNS name', s.loc)
        v = okval(s)
        if v is not None:
            p = fld(v, 'HostName:0')
            g = lambda i: p.a[i] if p.op == 'tup' else fld(p, str(i))
            ctx.value('T22.read_hostname.bytes', fld(g(0), '0'), txt, 'the bytes kept are those received', s.loc)
            ctx.value('T22.read_hostname.name', undns(g(1)), txt, 'the name kept is the one received', s.loc)
    # nothing else makes one
    makers = set()
    for fid, fn in ctx.db.fns.items():
        for body in [fn] + fn.get('promoted', []):
            for blk in body['blocks']:
                if any(x[0] == '=' and x[2][0] == 'agg' and x[2][1][:2] == ['adt', DN] for x in blk['s']): makers.add(fid)
                if mentions_fn(blk, DN): makers.add(fid)
    for fid in sorted(makers):
        root = re.split(r'::\{closure', fid)[0]
        if root not in ctx.db.fns or derived(root): continue
        s = ctx.summ(root, hook=dns_hook)
        key = 'T22.ctor.' + norm(root); found = False
        for c, t in alts(s.ret):
            for x in subterms(t):
                if x.op != 'agg' or x.a[0] != DN: continue
                found = True
                n = x.a[3]
                if n.op == 'agg' and n.a[1] == 'DnsName':
                    d = n.a[3]
                    if all(y.op in ('dns', 'lower') or is_name(ctx, s, y) for _, y in alts(d)): ctx.ok(key)
                    elif contains(d, lambda y: y.op == 'call'): ctx.unk(key, 'the name is made from ' + show(d)[:200])
                    else: ctx.bad(key, 'a server name is made from a text that was not parsed as a DNS name: ' + show(d)[:200], s.loc)
                elif n.op == 'agg': ctx.bad(key, 'a server name is made that is no DNS name: ' + show(n)[:200], s.loc)
                else: ctx.unk(key, 'the name is made from ' + show(n)[:200])
        if not found: ctx.unk(key, 'construction not reached in summary')
def mentions_fn(x, adt):
    """the constructor used as a function"""
    if isinstance(x, dict):
        if x.get('ctor') == adt or x.get('path') in (adt, adt + '::ServerName'): return True
        return any(mentions_fn(v, adt) for v in x.values())
    if isinstance(x, list): return any(mentions_fn(v, adt) for v in x)
    return False
def is_name(ctx, s, y):
    """an argument whose type is already that of a parsed name"""
    return y in s.args and 'DnsName' in str(s.fn['locals'][s.args.index(y) + 1][0])
def derived(i): return bool(re.search(r'as core::(clone::Clone|cmp::\w+|hash::Hash|fmt::Debug)>', i))
def hostname(ctx, key, s, r, d, care):
    ctx.same(key + '.kind', c_is(r, H + 'ServerNamePayload', 'HostName'), 1, 'a host name', s.loc)
    p = fld(r, 'HostName:0')
    g = lambda i: p.a[i] if p.op == 'tup' else fld(p, str(i))
    v = fld(g(0), '0')
    ctx.value(key + '.bytes', undns(V.unseq(v) if v.op == 'seq' else v), d, 'the bytes sent are those of the name', s.loc)
    ctx.value(key + '.name', undns(g(1)), d, 'the name kept is the name', s.loc)

# ---------------------------------------------------------------- T23
SECURE_RNG = ('rand::rngs::thread::rng', 'rand::thread_rng', 'rand::rngs::thread::thread_rng', 'rand_core::os::OsRng', 'rand::rngs::os::OsRng', 'getrandom::')
def rand_hook(inner):
    """a draw of secure randomness into a buffer = T('rnd', length): every byte random; the wrapper fill_random may fail"""
    def h(eng, fr, np, f, env, args, st_, reach, ln, ta):
        m = np.split('::')[-1]
        buf = None; fail = None
        if inner and np.endswith('rand::fill_random') and np.startswith('tls_core'): buf = args[0]; fail = bvar(T('rngok', I(len(eng.events))))
        elif re.match(r'(rand|rand_core|getrandom|ring)::', np) and m in ('fill', 'fill_bytes', 'try_fill', 'try_fill_bytes', 'getrandom', 'try_fill_bytes'):
            rng = eng.val(st_, args[0]) if len(args) > 1 else None
            k = 'secure' if rng is None else generator(rng, ta)
            buf = args[-1]
            if k is None or k == 'weak' and (buf.op != 'mref' or m.startswith('try')): return None
            if k == 'weak':
                s2 = dict(st_); eng.write(s2, eng.deref(s2, buf), T('weak', T('str', np), rng))
                return (1, UNIT, s2)
            if m.startswith('try') or np.startswith(('getrandom', 'ring')): fail = bvar(T('rngok', I(len(eng.events))))
        elif np.startswith('rand::') and m in ('random', 'random_range') or np in ('rand::random',): return None
        if buf is None or buf.op != 'mref': return None
        n = length(eng.val(st_, buf))
        s2 = dict(st_); r = T('rnd', n); V.setlen(r, n) if False else None
        eng.write(s2, eng.deref(s2, buf), r)
        if fail is None: return (1, UNIT, s2)
        return [(fail, agg(V.RES, 'Ok', ['0'], [UNIT]), s2), (NOT(fail), agg(V.RES, 'Err', ['0'], [T('rngerr')]), st_)]
    return h
WEAK_RNG = re.compile(r'(small|SmallRng|xoshiro|Xoshiro|Xoroshiro|Pcg|pcg|mock|StepRng|fastrand|oorandom|nanorand|SplitMix|lcg|Lcg)')
def generator(t, ta):
    """'secure' | 'weak' | None (unknown): the generator a draw is made from, by its type and by how it was made"""
    u = ta[0] if ta else None
    while u is not None and u[0] == 'ref': u = u[2]
    ty = u[1] if u is not None and u[0] == 'adt' else ''
    if WEAK_RNG.search(str(ty)): return 'weak'
    if re.search(r'(ThreadRng|OsRng|SystemRandom)$', str(ty)): return 'secure'
    for x in subterms(t):
        n = norm(x.a[0]) if x.op == 'call' else ''
        if n.endswith('::seed_from_u64') or n.endswith('::from_seed') and not any(y.op in ('rnd', 'call', 'eff') for z in x.a[1:] if isinstance(z, Term) for y in subterms(z)): return 'weak'
    if t.op == 'call' and norm(t.a[0]).startswith(SECURE_RNG): return 'secure'
    return None
def secure(t):
    return any(x.op == 'call' and norm(x.a[0]).startswith(SECURE_RNG) or x.op in ('zst', 'const', 'static', 'agg') and any(k.split('::')[-1] in str(x.a) for k in ('OsRng', 'SystemRandom')) for x in subterms(t))
def rnd_all(ctx, key, v, n, msg, s, care=1):
    """v is n random bytes"""
    if v is None: ctx.unk(key, msg + ': not computed'); return
    if v.op == 'seq': v = V.unseq(v)
    if v.op == 'choice':
        for i, (c, x) in enumerate(alts(v)):
            if AND(c, care) != 0: rnd_all(ctx, '%s.%d' % (key, i), x, n, msg, s, AND(c, care))
        return
    if any(x.op == 'weak' for x in subterms(v)):
        ctx.bad(key, '%s: comes from %s, which is no cryptographic generator' % (msg, show(next(x for x in subterms(v) if x.op == 'weak').a[1])[:150]), s.loc); return
    if v.op == 'rnd':
        ctx.value(key, v.a[0], n, msg, s.loc); return
    if any(x.op in ('call', 'eff') for x in subterms(v)):
        ins = [x for x in subterms(v) if x.op == 'call' and re.match(r'(rand|rand_core|fastrand|oorandom|nanorand)::', norm(x.a[0]))]
        if ins and not secure(v): ctx.bad(key, '%s: comes from %s, which is no cryptographic generator' % (msg, show(ins[0])[:150]), s.loc)
        else: ctx.unk(key, '%s: %s' % (msg, show(v)[:200]))
        return
    ctx.bad(key, '%s: is %s' % (msg, show(v)[:300]), s.loc)
def T23(ctx):
    """Each creator of a fresh value analysed with secure randomness uninterpreted: the value is random in every byte, and the creator
    succeeds only if the generator did."""
    f = ctx.fn('rand::fill_random')
    if f:
        s = ctx.summ(f, hook=rand_hook(False)); b = s.args[0]
        rnd_all(ctx, 'T23.fill_random', s.final(b), length(b), 'the whole buffer is filled from the secure generator', s)
        propagate(ctx, 'T23.fill_random', s)
    for nm, key, val, n in (('rand::random_vec', 'random_vec', lambda v: v, lambda s: s.args[0]), ('rand::random_u32', 'random_u32', lambda v: v, None),
                            ('msgs::handshake::Random::new', 'Random', lambda v: fld(v, '0'), lambda s: I(32)),
                            ('msgs::handshake::SessionID::random', 'SessionID', lambda v: fld(v, 'data'), lambda s: I(32))):
        f = ctx.fn(nm)
        if f is None: continue
        s = ctx.summ(f, hook=rand_hook(True))
        v = okval(s)
        propagate(ctx, 'T23.' + key, s)
        if v is None: ctx.bad('T23.' + key, 'never succeeds', s.loc); continue
        if n is None:
            w = v
            if w.op == 'unbe' and w.a[0] == 32 and w.a[1].op == 'rnd': rnd_all(ctx, 'T23.' + key, w.a[1], I(4), 'all four bytes are random', s)
            elif is_int(w): ctx.bad('T23.' + key, 'the value is the constant ' + show(w), s.loc)
            elif not any(x.op in ('rnd', 'call', 'eff') for x in subterms(w)) or few_random(w): ctx.bad('T23.' + key, 'the value %s is not random' % show(w)[:200], s.loc)
            else: ctx.unk('T23.' + key, show(w)[:200])
            continue
        rnd_all(ctx, 'T23.' + key, val(v), n(s), 'every byte is random', s, okcond(s))
        if key == 'SessionID': ctx.value('T23.SessionID.len', fld(v, 'len'), I(32), 'a fresh session identifier has 32 bytes', s.loc)
def few_random(w):
    """a 32-bit value all of whose bits come from draws of fewer than four bytes"""
    if any(x.op in ('call', 'eff', 'choice', 'lv', 'fold') for x in subterms(w)): return False
    rs = {x for x in subterms(w) if x.op == 'rnd'}
    return all(is_int(x.a[0]) for x in rs) and sum(x.a[0].a[0] for x in rs) < 4
def propagate(ctx, key, s):
    """success implies that every draw met on the way succeeded"""
    g = 1
    for a in seen_atoms(s):
        if a.op == 'rngok': g = AND(g, bvar(a))
    ctx.require(key + '.failure', okcond(s), g, 'succeeds only if the generator did', s.loc)
def seen_atoms(s):
    out = set()
    for c, t in alts(s.ret):
        for v in B.support(c):
            if ATOMS[v][0] == 'b': out.add(ATOMS[v][1])
    for e in s.events:
        for v in B.support(e.cond):
            if ATOMS[v][0] == 'b': out.add(ATOMS[v][1])
    for i in range(s.fn['argc']):
        for c, t in alts(s.final(s.args[i])):
            for v in B.support(c):
                if ATOMS[v][0] == 'b': out.add(ATOMS[v][1])
    return out

# ---------------------------------------------------------------- T24
def at(t, k):
    """element k of a vector term built by insertions and updates on a loop variable"""
    if t.op == 'insert' and is_int(t.a[1]):
        p = t.a[1].a[0]
        return at(t.a[0], k) if k < p else (fix(t.a[2]) if k == p else at(t.a[0], k - 1))
    if t.op == 'upd' and t.a[1] == 'i' and is_int(t.a[2]):
        return fix(t.a[3]) if t.a[2].a[0] == k else at(t.a[0], k)
    if t.op == 'seq':
        for p in t.a:
            if p.op == 'e':
                if k == 0: return fix(p.a[0])
                k -= 1
            else: return at(p.a[0], k)
        return None
    return V.proj(t, ('i', I(k)))
def fix(x):
    """element accesses inside a value resolved with at()"""
    if x.op == 'index' and is_int(x.a[1]): return at(x.a[0], x.a[1].a[0])
    if x.op == 'lin':
        c, m = V.lin_of(x); r = I(c)
        for t, k in m.items(): r = V.add(r, V.mulc(fix(t), k) if hasattr(V, 'mulc') and k != 1 else fix(t))
        return r
    if x.op in ('trunc',): return V.trunc(fix(x.a[1]), x.a[0])
    return x
def lowbyte(x):
    """is x the low byte of L? -> L"""
    if x.op == 'trunc' and x.a[0] == 8:
        y = x.a[1]
        if y.op == 'bitand': 
            for i in (0, 1):
                if is_int(y.a[i]) and y.a[i].a[0] == 255: return y.a[1 - i]
        if y.op == 'rem' and is_int(y.a[1]) and y.a[1].a[0] == 256: return y.a[0]
        return y
    return None
def growth(t):
    n = 0
    while t.op in ('insert', 'upd'):
        n += t.op == 'insert'; t = t.a[0]
    return n, t
def asn1_len(ctx):
    f = ctx.fn('x509::wrap_in_asn1_len')
    if f is None: return None
    s = ctx.summ(f); b = s.args[0]; fin = s.final(b); n = length(b)
    short_ = V.c_le(n, I(127))
    key = 'T24.der_length'
    ctx.value(key + '.short', fin, V.mkseq([T('e', T('trunc', 8, n)), T('s', b)]), 'a length up to 127 is one byte', s.loc, care=short_)
    long_ = NOT(short_)
    xs = [(AND(c, long_), x) for c, x in alts(fin) if AND(AND(c, long_), valid2(c)) != 0]
    lvs = {x for _, x in xs if x.op == 'lv'}
    for c, x in xs:
        # without the loop the length takes a single byte
        g, base = growth(x)
        if x.op == 'seq' and x.a and x.a[-1] is T('s', b) and all(y.op == 'e' for y in x.a[:-1]): g, base = len(x.a) - 1, b
        if base is b and g < 2 and not V.contains(x, lambda t: t.op == 'lv'): ctx.bad(key + '.long', 'a length above 127 is written as %s' % show(x)[:200], s.loc); return f
    if len(lvs) != 1:
        ctx.unk(key + '.long', 'long form not recognised'); return f
    rest, = lvs
    li = V.LVINFO[rest][0]; L = s.engine.loops.get(li)
    others = [lv for lv in L['init'] if lv is not rest]
    if len(others) != 1: ctx.unk(key + '.long', 'loop not recognised'); return f
    ctx.state = {rest, others[0]}
    for c, x in xs:
        if x is rest: continue
        if x is L['step'][rest]: ctx.require(key + '.leave', c, V.c_eq(L['step'][others[0]], I(0)), 'the loop is left only when nothing of the length is left', s.loc)
        else: ctx.unk(key + '.leave', show(x)[:200])
    B_, n_ = rest, others[0]
    if L['init'][B_] is V.mkseq([T('e', I(128)), T('s', b)]):
        # what comes out of the loop starts with a byte of the long form
        for c, x in alts(fin):
            if x is rest or x is L['step'][rest]: ctx.require(key + '.short', c, long_, 'the long form is used only for a length above 127', s.loc)
    ctx.value(key + '.init', L['init'][B_], V.mkseq([T('e', I(128)), T('s', b)]), 'the long form starts with 0x80', s.loc)
    ctx.value(key + '.count', L['init'][n_], n, 'all of the length is encoded', s.loc)
    ctx.same(key + '.while', L['back'], NOT(V.c_eq(n_, I(0))), 'bytes are added exactly while some of the length is left', s.loc)
    stp = L['step'][n_]
    ctx.value(key + '.shift', stp, T('shr', n_, I(8)), 'one byte at a time', s.loc)
    stb = L['step'][B_]
    g, base = growth(stb)
    if base.op == 'seq' and len(base.a) > 1 and base.a[-1] is T('s', B_) and all(y.op == 'e' for y in base.a[:-1]): g, base = g + len(base.a) - 1, B_
    if base is not B_: ctx.unk(key + '.step', show(stb)[:200]); return f
    if g != 1: ctx.bad(key + '.step', 'a step adds %d bytes' % g, s.loc); return f
    ctx.value(key + '.step.0', at(stb, 0), V.add(V.proj(B_, ('i', I(0))), I(1)), 'the count of length bytes grows by one', s.loc)
    lb = lowbyte(at(stb, 1))
    if lb is not None: ctx.value(key + '.step.1', lb, n_, 'the next length byte, most significant first', s.loc)
    else: ctx.value(key + '.step.1', at(stb, 1), T('trunc', 8, n_), 'the next length byte, most significant first', s.loc)
    for k in (2, 3): ctx.value(key + '.step.%d' % k, at(stb, k), V.proj(B_, ('i', I(k - 1))), 'what was there moves up by one', s.loc)
    return f
def skipped(r, X):
    """condition under which a list built from X leaves out an element (0: none recognised)"""
    for x in subterms(r):
        if x.op == 'filter' and x.a[0] is X: c = NOT(cond(x.a[1]))
        elif x.op == 'fold' and x.a[0] is X: c = ORS(*[k for k, v in alts(x.a[2]) if v is T('acc')])
        else: continue
        if AND(c, valid2(c)) != 0: return c
    return 0
def T24(ctx):
    """DER length octets by induction over the encoding loop; SEQUENCE wrapping; the subject list as a map over the roots; containers
    expose exactly what they were given."""
    fl = asn1_len(ctx)
    def len_hook(eng, fr, np, f, env, args, st_, reach, ln, ta):
        if f and fl and f['id'] == fl and args[0].op == 'mref':
            s2 = dict(st_); v = eng.val(st_, args[0])
            eng.write(s2, eng.deref(s2, args[0]), V.mkseq([T('s', T('der', V.unseq(v) if v.op == 'seq' else v))]))
            return (1, UNIT, s2)
        return None
    seqd = lambda v: V.mkseq([T('e', I(0x30)), T('s', T('der', v))])
    f = ctx.fn('x509::wrap_in_sequence')
    if f:
        s = ctx.summ(f, hook=len_hook); b = s.args[0]
        ctx.value('T24.wrap_in_sequence', s.final(b), seqd(b), 'tag 0x30, length, content', s.loc)
    f = ctx.fn('anchors::RootCertStore::subjects')
    if f:
        s = ctx.summ(f, hook=len_hook); X = fld(s.args[0], 'roots'); el = V.elem(X)
        w = agg('tls_core::msgs::base::PayloadU16', 'PayloadU16', ['0'], [seqd(fld(el, 'subject'))])
        r = V.unseq(s.ret) if s.ret.op == 'seq' else s.ret
        sk = skipped(r, X)
        if sk: ctx.bad('T24.subjects', 'a trust anchor can be left out: %s' % showc(sk, lim=1)[:300], s.loc)
        else: ctx.value('T24.subjects', r, T('coll', X, w), 'the DER subject of every root, in order', s.loc)
    f = ctx.fn('anchors::RootCertStore::empty')
    if f: s = ctx.summ(f); ctx.same('T24.empty', V.c_eq(length(fld(s.ret, 'roots')), I(0)), 1, 'a new store has no roots', s.loc)
    f = ctx.fn('anchors::RootCertStore::is_empty')
    if f: s = ctx.summ(f); ctx.same('T24.is_empty', cond(s.ret), V.c_eq(length(fld(s.args[0], 'roots')), I(0)), 'empty iff there are no roots', s.loc)
    f = ctx.fn('anchors::RootCertStore::len')
    if f: s = ctx.summ(f); ctx.value('T24.len', s.ret, length(fld(s.args[0], 'roots')), 'number of roots', s.loc)
    f = ctx.fn('key::PublicKey::new')
    if f:
        s = ctx.summ(f)
        ctx.value('T24.PublicKey.group', fld(s.ret, 'group'), s.args[0], 'the group given', s.loc); k = fld(s.ret, 'key')
        ctx.value('T24.PublicKey.key', V.unseq(k) if k.op == 'seq' else k, s.args[1], 'the key given', s.loc)
    for im in ctx.db.bytrait.get('core::convert::From', []):
        a = im['args']
        if a[0][:2] == ('adt', 'tls_core::key::PublicKey'):
            s = ctx.summ(dict(im['items'])['from'])
            ctx.value('T24.PublicKey.from.group', fld(s.ret, 'group'), fld(s.args[0], 'group'), 'the group of the share', s.loc)
            ctx.value('T24.PublicKey.from.key', fld(s.ret, 'key'), fld(s.args[0], 'payload.0'), 'the key of the share', s.loc)
    f = ctx.method('core::convert::AsRef', 'tls_core::key::Certificate', 'as_ref', False)
    if f: s = ctx.summ(f); ctx.value('T24.Certificate', s.ret, fld(s.args[0], '0'), 'the bytes of the certificate', s.loc)
    C = 'cert::ServerCertDetails::'
    f = ctx.fn(C + 'new')
    if f:
        s = ctx.summ(f)
        for i, n in enumerate(('cert_chain', 'ocsp_response', 'scts')):
            ctx.value('T24.cert.new.' + n, fld(s.ret, n), s.args[i], 'the %s given' % n, s.loc)
            g = ctx.fn(C + n)
            if g: q = ctx.summ(g); ctx.value('T24.cert.' + n, q.ret, fld(q.args[0], n), 'the %s kept' % n, q.loc)
    C = 'ke::ServerKxDetails::'
    f = ctx.fn(C + 'new')
    if f:
        s = ctx.summ(f)
        for i, n in enumerate(('kx_params', 'kx_sig')):
            ctx.value('T24.kx.new.' + n, fld(s.ret, n), s.args[i], 'the %s given' % n, s.loc)
            g = ctx.fn(C + n)
            if g: q = ctx.summ(g); ctx.value('T24.kx.' + n, q.ret, fld(q.args[0], n), 'the %s kept' % n, q.loc)
    C = 'handshake::HandshakeData::'
    f = ctx.fn(C + 'new', False)
    if f:
        s = ctx.summ(f)
        names = [x[0] for x in ctx.db.adts['tls_core::handshake::HandshakeData']['variants'][0][2]]
        order = [n for n in ('server_cert_details', 'server_kx_details', 'client_random', 'server_random')]
        for i, n in enumerate(order):
            if n not in names: continue
            ctx.value('T24.hs.new.' + n, fld(s.ret, n), s.args[i], 'the %s given' % n, s.loc)
            g = ctx.fn(C + n, False)
            if g: q = ctx.summ(g); ctx.value('T24.hs.' + n, q.ret, fld(q.args[0], n), 'the %s kept' % n, q.loc)
