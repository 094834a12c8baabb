"""Rules for tlsn-core (C01-C10).  The crate is analysed with its dependencies' real sources where they are present and with interface
stubs where they are not: a call into a stub is an opaque value of its arguments, exactly like any other foreign call."""
from lang import *

def start(ctx): ctx.crate = 'tlsn_core'

# ---------------------------------------------------------------- hashing
def absorbed(t):
    """(initial state, [inputs]) of a digest state"""
    if t.op == 'eff' and t.a[0].op == 'call' and t.a[1] == 0 and t.a[0].a[0].split('::')[-1] == 'update' and len(t.a[0].a) == 4:
        b, i = absorbed(t.a[0].a[2]); return b, i + [t.a[0].a[3]]
    if t.op == 'call' and t.a[0].split('::')[-1] in ('chain_update', 'update', 'chain') and len(t.a) == 4:
        b, i = absorbed(t.a[2]); return b, i + [t.a[3]]
    if t.op == 'call' and t.a[0].split('::')[-1] == 'new_with_prefix': return t, [t.a[2]]
    return t, []
def digests(t):
    """every digest computed inside a value: (family, [inputs], term)"""
    out = []
    for x in sorted(subterms(t), key=lambda x: x.id):
        if x.op != 'call': continue
        n = x.a[0].split('::')[-1]
        if n.startswith('finalize') and len(x.a) >= 3:
            b, i = absorbed(x.a[2])
            out.append((family(b), i, x))
        elif n in ('hash', 'digest') and len(x.a) == 3 and x.a[0].startswith(('blake3::', 'digest::', 'sha2::')): out.append((family(x), [x.a[2]], x))
    return out
def family(b):
    if b.op != 'call': return None
    p, k = b.a[0], str(b.a[1])
    if p.startswith('blake3::'): return 'blake3' if p.split('::')[-1] in ('new', 'hash', 'default') else 'blake3:' + p.split('::')[-1]
    if p.startswith('core::default') and k.startswith('blake3::Hasher'): return 'blake3'
    m = re.search(r'tiny_keccak::(?:\w+::)*Keccak::(v\d+)', p)
    if m: return 'keccak:' + m.group(1)
    m = re.search(r'(sha2|sha3|sha1)::.*?(Sha\d+|Keccak\d+)\w*Core.*?((?:UInt<)*)', k)
    if re.search(r'sha2::core_api::Sha256VarCore', k): return 'sha256' if 'OidSha256' in k else 'sha224'
    return p + ' ' + k
def hash_alg(ctx, key, ty, fam):
    for nm, n in (('hash', 1), ('hash_prefixed', 2)):
        f = ctx.method('hash::HashAlgorithm', ty, nm); s = ctx.summ(f)
        if s is None: continue
        ds = digests(s.ret)
        want = s.args[1:1 + n]
        if not ds:
            ctx.unk('%s.%s' % (key, nm), 'no digest computation found in the value'); continue
        fams = {d[0] for d in ds}
        if fams != {fam}: ctx.bad('%s.%s' % (key, nm), 'computes %s instead of %s' % (sorted(map(str, fams)), fam), s.loc); continue
        got = [[y for y in d[1]] for d in ds]
        flat = lambda xs: V.mkseq([T('s', x) for x in xs])
        r = [ctx.tdiff(flat(g), flat(want)) for g in got]
        if any(x is None for x in r) and all(x is None for x in r): ctx.ok('%s.%s' % (key, nm))
        else: ctx.bad('%s.%s' % (key, nm), 'the digest is over (%s) instead of (%s)' % (', '.join(show(x) for x in got[0])[:300], ', '.join(show(x) for x in want)), s.loc)
        whole_digest(ctx, '%s.%s.whole' % (key, nm), s, [d[2] for d in ds])
def whole_digest(ctx, key, s, ds):
    """the returned value holds the digest from its first byte, with the digest's own length"""
    v, ln = fld(s.ret, 'value'), fld(s.ret, 'len')
    roots = list(ds) + [x for x in subterms(v) if x.op == 'eff' and x.a[0] in ds] + [x for x in subterms(v) if x.op == 'call' and any(d in x.a[2:] for d in ds)]
    for x in roots:
        if ctx.tdiff(v, V.update(T('rep', I(0), I(64)), [('sl', I(0), length(x))], x)) is None and ctx.tdiff(ln, length(x)) is None: ctx.ok(key); return
    for x in roots:
        if v.op == 'arr' and all(y is proj(x, ('i', I(i))) or i >= 32 and V.is_int(y) and y.a[0] == 0 for i, y in enumerate(v.a)) and V.is_int(ln) and ln.a[0] == 32: ctx.ok(key); return
    ctx.unk(key, 'the digest could not be traced into the returned value: %s' % show(v)[:200])

def peel(t):
    """a list without the reorderings applied to it"""
    while t.op == 'eff' and t.a[1] == 0 and t.a[0].op == 'call' and re.search(r'::(sort\w*|reverse|select_nth_unstable\w*|rotate_\w+)$', t.a[0].a[0]): t = t.a[0].a[2]
    return t
def column(ctx, key, v, X, col, msg, where):
    """v lists component `col` of the entries of X, in some order; -> the order (the reordered list)"""
    v = coll_(v)
    if v.op == 'coll' and peel(v.a[0]) is X and v.a[1] is fld(V.elem(v.a[0]), col): ctx.ok(key); return v.a[0]
    if v.op == 'coll' and peel(v.a[0]) is X: ctx.bad(key, '%s: lists %s' % (msg, show(v.a[1])[:200]), where); return None
    ctx.unk(key, '%s: %s' % (msg, show(v)[:200])); return None
def coll_(v): return v.a[0] if v.op == 'iter' else v

def C01(ctx):
    start(ctx)
    f = ctx.fn('merkle::MerkleProof::verify'); s = ctx.summ(f)
    if s:
        cs = ctx.events(s, r'^rs_merkle::.*MerkleProof::verify$'); okc = okcond(s)
        if not cs: ctx.bad('C01.verify', 'accepted without recomputing the root', s.loc) if okc != 0 else None
        for e in cs[:1]:
            ctx.require('C01.verify', okc, V.cond(e.res), 'acceptance needs the recomputed root to match', s.loc)
            p, h, root, idx, leaves, n = e.args
            ctx.value('C01.proof', p, fld(s.args[0], 'proof'), 'the proof given', s.loc)
            ctx.value('C01.root', root, fld(s.args[2], 'value'), 'the root given', s.loc)
            ctx.value('C01.count', n, fld(s.args[0], 'leaf_count'), 'the size of the tree recorded in the proof', s.loc)
            ctx.value('C01.hasher', h, Lang(ctx, s)('RsMerkleHasher{0:$1}'), 'the hasher given', s.loc)
            a = column(ctx, 'C01.indices', idx, s.args[3], '0', 'the indices of exactly the leaves given', s.loc)
            b = column(ctx, 'C01.leaves', leaves, s.args[3], '1', 'the hashes of exactly the leaves given', s.loc)
            if a is not None and b is not None:
                if a is b: ctx.ok('C01.pairing')
                else: ctx.bad('C01.pairing', 'indices and hashes are not in the same order: %s vs. %s' % (show(a)[:200], show(b)[:200]), s.loc)
            # two entries with one index are refused: no more entries than different indices
            forms = [c_le(length(i), length(T('setof', j, 'set'))) for i in (idx, leaves, s.args[3]) for j in {coll_(idx), V.T('coll', s.args[3], fld(V.elem(s.args[3]), '0'))}]
            g = ORS(*forms)
            if AND(okc, NOT(g)) == 0: ctx.ok('C01.distinct')
            elif any(x.op in ('setof', 'distinct', 'chunks') for x in [y for v in B.support(okc) for y in subterms(ATOMS[v][1])]): ctx.unk('C01.distinct', 'test for duplicates not recognised: %s' % showc(okc, lim=1)[:300])
            elif any(ATOMS[v][0] == 'all' or contains(ATOMS[v][1], lambda y: y.op in ('lv', 'all', 'seti', 'setin')) for v in B.support(okc)): ctx.unk('C01.distinct', 'test for duplicates not recognised')
            else: ctx.bad('C01.distinct', 'entries with the same index are accepted', s.loc)
    s = ctx.summ(ctx.method('rs_merkle::Hasher', 'merkle::RsMerkleHasher', 'hash'))
    if s: ctx.value('C01.node', s.ret, Lang(ctx, s)('hash($0.0, $1)'), 'nodes are hashed with the hash algorithm in use, over exactly their data', s.loc)
    f = ctx.fn('merkle::MerkleTree::insert'); s = ctx.summ(f)
    if s:
        pan = ORS(*[e.cond for e in s.events if e.kind == 'panic'])
        L = Lang(ctx, s)
        ctx.require('C01.insert.alg', NOT(pan), hash_same(ctx, s, L, '$0.alg', 'id($1)'), 'leaves are hashed only with the algorithm of the tree', s.loc)
        ctx.value('C01.insert', fld(s.final(s.args[0]), 'tree'), L('eff(MerkleTree::commit(eff(MerkleTree::append($0.tree, $2), 0), RsMerkleHasher{0:$1}), 0)'), 'the leaves are appended and committed to', s.loc, care=NOT(pan))
        ctx.value('C01.insert.keep', fld(s.final(s.args[0]), 'alg'), fld(s.args[0], 'alg'), 'the algorithm does not change', s.loc)
    s = ctx.summ(ctx.fn('merkle::MerkleTree::root'))
    if s: ctx.value('C01.root_of', s.ret, Lang(ctx, s)('TypedHash{alg: $0.alg, value: MerkleTree::root($0.tree).Some.0}'), 'the root carries the algorithm of the tree', s.loc)
    s = ctx.summ(ctx.fn('merkle::MerkleTree::new'))
    if s: ctx.value('C01.new', fld(s.ret, 'alg'), s.args[0], 'a tree records its algorithm', s.loc)
    s = ctx.summ(ctx.fn('merkle::MerkleTree::algorithm'))
    if s: ctx.value('C01.algorithm', s.ret, fld(s.args[0], 'alg'), 'accessor', s.loc)
    f = ctx.fn('merkle::MerkleTree::proof'); s = ctx.summ(f)
    if s:
        L = Lang(ctx, s)
        ctx.value('C01.prove', s.ret, L('MerkleProof{alg: $0.alg, leaf_count: MerkleTree::leaves_len($0.tree), proof: MerkleTree::proof($0.tree, $1)}'), 'a proof for exactly the given indices, with the size of the tree', s.loc)
        pan = ORS(*[e.cond for e in s.events if e.kind == 'panic'])
        last = proj(s.args[1], ('i', V.sub(length(s.args[1]), I(1))))
        ctx.require('C01.prove.range', NOT(pan), V.c_lt(last, L('MerkleTree::leaves_len($0.tree)')), 'no proof is made for a leaf the tree does not have', s.loc)

def hash_same(ctx, s, L, a, b):
    a, b = L(a), L(b)
    return same_int(fld(a, '0'), fld(b, '0'))

def C02(ctx):
    start(ctx)
    H = 'hash::'
    for nm, n in (('SHA256', 1), ('BLAKE3', 2), ('KECCAK256', 3)):
        s = ctx.summ(ctx.fn(H + 'HashAlgId::' + nm))
        if s: ctx.value('C02.id.' + nm, fld(s.ret, '0'), I(n), 'the identifier of %s is %d' % (nm, n), s.loc)
    for ty, nm, n, fam in (('sha2::Sha256', 'SHA256', 1, 'sha256'), ('blake3::Blake3', 'BLAKE3', 2, 'blake3'), ('keccak::Keccak256', 'KECCAK256', 3, 'keccak:v256')):
        s = ctx.summ(ctx.method(H + 'HashAlgorithm', H + ty, 'id'))
        if s: ctx.value('C02.%s.id' % nm, fld(s.ret, '0'), I(n), '%s reports its own identifier' % ty, s.loc)
        hash_alg(ctx, 'C02.' + nm, H + ty, fam)
    f = ctx.fn(H + 'HashAlgId::new'); s = ctx.summ(f)
    if s:
        pan = ORS(*[e.cond for e in s.events if e.kind == 'panic'])
        ctx.same('C02.reserved', pan, V.c_lt(s.args[0], I(128)), 'user-defined identifiers below 128 are refused, and only those', s.loc)
        ctx.value('C02.new', fld(s.ret, '0'), s.args[0], 'a user-defined identifier is the given one', s.loc, care=NOT(pan))
    # every other way to make a HashAlgId: only the constants, `new`, copies and deserialisation build one
    ids = [f for f in ctx.db.fns if builds(ctx, f, 'tlsn_core::hash::HashAlgId') and not re.search(r'::(SHA256|BLAKE3|KECCAK256|new|clone|visit_\w+|deserialize)$', norm(f))]
    if ids: ctx.unk('C02.makers', 'other constructors of hash identifiers: %s' % ids[:3])
    else: ctx.ok('C02.makers')
    f = ctx.fn(H + 'HashProvider::get'); s = ctx.summ(f)
    if s:
        L = Lang(ctx, s); g = L('HashMap::get($0.algs, $1)')
        if L.missing: ctx.unk('C02.get', 'no lookup in the table of algorithms by the given identifier')
        else:
            ctx.same('C02.get.ok', okcond(s), c_is(g, V.OPT, 'Some'), 'an algorithm is returned exactly when the identifier is in the table', s.loc)
            ctx.value('C02.get.value', okval(s), fld(g, 'Some:0'), 'the algorithm stored under that identifier is returned', s.loc, care=okcond(s))
    f = ctx.fn(H + 'HashProvider::set_algorithm'); s = ctx.summ(f)
    if s:
        ins = ctx.events(s, r'HashMap::insert$')
        ok = len(ins) == 1 and ins[0].cond == 1 and all(ctx.tdiff(a, b) is None for a, b in zip(ins[0].args, (fld(s.args[0], 'algs'), s.args[1], s.args[2])))
        if ok: ctx.ok('C02.set')
        elif len(ins) == 1: ctx.bad('C02.set', 'an algorithm is stored as %s' % show(ins[0].args[1])[:200], s.loc)
        else: ctx.unk('C02.set', 'insertion not recognised')
    f = ctx.method('core::default::Default', H + 'HashProvider', 'default'); s = ctx.summ(f)
    if s:
        got = {}
        for e in ctx.events(s, r'HashMap::insert$'):
            k, v = e.args[1], e.args[2]
            if e.cond == 1: got[show(fld(k, '0'))] = v.a[0].split('::')[-1] if v.op == 'agg' else show(v)
        want = {'1': 'Sha256', '2': 'Blake3', '3': 'Keccak256'}
        if got == want: ctx.ok('C02.default')
        elif got: ctx.bad('C02.default', 'default table of algorithms is %s instead of %s' % (got, want), s.loc)
        else: ctx.unk('C02.default', 'default table not recognised')
    # digest values: at most 64 bytes, the bytes given
    f = ctx.fn(H + 'Hash::new'); s = ctx.summ(f)
    if s:
        pan = ORS(*[e.cond for e in s.events if e.kind == 'panic'])
        ctx.same('C02.hash.new', pan, V.c_lt(I(64), length(s.args[0])), 'a digest longer than 64 bytes is refused, and only that', s.loc)
        hash_value(ctx, 'C02.hash.new', s, s.ret, s.args[0], NOT(pan))
    f = ctx.method('core::convert::TryFrom', H + 'Hash', 'try_from', required=False); s = ctx.summ(f)
    if s:
        ctx.same('C02.hash.try_from', okcond(s), c_le(length(s.args[0]), I(64)), 'a digest longer than 64 bytes is refused, and only that', s.loc)
        hash_value(ctx, 'C02.hash.try_from', s, okval(s), s.args[0], okcond(s))
    f = ctx.fn(H + 'Hash::as_bytes'); s = ctx.summ(f)
    if s: ctx.value('C02.hash.as_bytes', s.ret, Lang(ctx, s)('slice($0.value, 0, $0.len)'), 'the digest is the first len bytes of the buffer', s.loc)
    f = ctx.method('serde_core::ser::Serialize', H + 'Hash', 'serialize'); s = ctx.summ(f)
    if s: ctx.value('C02.hash.serialize', s.ret, Lang(ctx, s)('collect_seq($1, slice($0.value, 0, $0.len))'), 'the serialised digest is its bytes', s.loc)
    # equality of digests covers the bytes and the length; typed hashes also the algorithm
    s = ctx.summ(ctx.method('core::cmp::PartialEq', H + 'Hash', 'eq'))
    if s: ctx.same('C02.Hash.eq', V.cond(s.ret), AND(c_eq(fld(s.args[0], 'value'), fld(s.args[1], 'value')), same_int(fld(s.args[0], 'len'), fld(s.args[1], 'len'))), 'digests are equal iff their bytes and lengths are', s.loc)
    s = ctx.summ(ctx.method('core::cmp::PartialEq', H + 'HashAlgId', 'eq'))
    if s: ctx.same('C02.HashAlgId.eq', V.cond(s.ret), same_int(fld(s.args[0], '0'), fld(s.args[1], '0')), 'identifiers are equal iff their numbers are', s.loc)
    s = ctx.summ(ctx.method('core::cmp::PartialEq', H + 'TypedHash', 'eq'))
    if s:
        x, y = s.args
        ctx.same('C02.TypedHash.eq', V.cond(s.ret), ANDS(same_int(fld(x, 'alg.0'), fld(y, 'alg.0')), c_eq(fld(x, 'value.value'), fld(y, 'value.value')), same_int(fld(x, 'value.len'), fld(y, 'value.len'))), 'typed hashes are equal iff algorithm, bytes and length are', s.loc)
    deser_bound(ctx)
def deser_bound(ctx):
    hash_de(ctx, 'C02')
def hash_de(ctx, p):
    """a serialised digest of more than 64 bytes is refused"""
    fs = [f for f in ctx.db.fns if re.search(r"hash::Hash as serde.*HashVisitor.*Visitor.*>::visit_seq$", f)]
    if len(fs) != 1: ctx.unk(p + '.hash.deserialize', 'visitor not recognised'); return
    s = ctx.summ(fs[0])
    body = [x for l in s.engine.loops.values() for x in l['step'].values()]
    if not body: ctx.unk(p + '.hash.deserialize', 'no loop'); return
    okv_ = okval(s)
    if okv_ is None: ctx.unk(p + '.hash.deserialize', 'no value'); return
    lens = [lv for l in s.engine.loops.values() for lv in l['init'] if l['step'][lv] is V.add(lv, I(1))]
    if not lens: ctx.unk(p + '.hash.deserialize', 'counter not recognised'); return
    n = lens[0]; l = next(l for l in s.engine.loops.values() if n in l['init'])
    back = l['back']
    # an element is stored only while the counter is below 64 (so no panic and no silent truncation)
    ctx.require(p + '.hash.deserialize', back, V.c_lt(n, I(64)), 'a sequence longer than 64 elements is refused', s.loc)
    ctx.value(p + '.hash.deserialize.init', l['init'][n], I(0), 'the length starts at zero', s.loc)
def same_int(a, b): return AND(c_le(a, b), c_le(b, a))
def hash_value(ctx, key, s, v, src, care):
    if v is None: ctx.unk(key, 'no value'); return
    ctx.value(key + '.value', fld(v, 'value'), V.update(T('rep', I(0), I(64)), [('sl', I(0), length(src))], src), 'the digest bytes are the given ones followed by zeros', s.loc, care=care)
    ctx.value(key + '.len', fld(v, 'len'), length(src), 'the digest length is the given one', s.loc, care=care)
def builds(ctx, f, path):
    """does the function construct a value of the type (from its parts)?"""
    for b in ctx.db.fns[f].get('blocks') or []:
        for st in b['s']:
            if st[0] == '=' and st[2][0] == 'agg' and st[2][1][0] == 'adt' and st[2][1][1] == path: return True
    return False
def json_str(x): return x if isinstance(x, str) else ' '.join(json_str(y) for y in x) if isinstance(x, (list, tuple)) else str(x)

# ---------------------------------------------------------------- transcripts
P = 'transcript::'
SIDES = (('sent', 'sent_authed_idx'), ('received', 'received_authed_idx'))
def offset_of(ctx, key, s, v, X):
    """the loop variable that runs over a packed buffer while the ranges X are visited: 0, then plus the length of every range"""
    c = [x for x in subterms(v) if x.op == 'lv' and x in V.LVINFO and contains(v, lambda y: y.op == 'slice' and contains(y.a[1], lambda z: z is x))]
    for x in c:
        l = next((l for l in s.engine.loops.values() if x in l['init']), None)
        if l is None: continue
        ctx.value(key + '.offset0', l['init'][x], I(0), 'the packed data are read from the beginning', s.loc)
        ctx.value(key + '.offset', l['step'][x], V.add(x, length(V.elem(X))), 'the packed data are read in the order of the ranges', s.loc)
        return x
    return None
def scatter(L, X, base, src, off=None):
    """base with, for every range of X, those bytes replaced by the same bytes of src (or by the packed bytes at off)"""
    e = V.elem(X); a, b = fld(e, 'start'), fld(e, 'end')
    part = V.mkslice(src, a, b) if off is None else V.mkslice(src, off, V.add(off, length(e)))
    return V.mk_fold(X, base, V.update(T('acc'), [('sl', a, b)], part))
def blank(n): return T('rep', I(0), n)

def C03(ctx):
    start(ctx)
    f = ctx.fn(P + 'Transcript::to_partial'); s = ctx.summ(f)
    if s:
        L = Lang(ctx, s)
        for i, (d, ix) in enumerate(SIDES):
            data = fld(s.args[0], d); X = L('iter($%d)' % (i + 1))
            ctx.value('C03.to_partial.' + d, fld(s.ret, d), scatter(L, X, blank(length(data)), data), 'the %s data are blank except inside the ranges to be revealed' % d, s.loc)
            ctx.value('C03.to_partial.' + ix, fld(s.ret, ix), s.args[i + 1], 'exactly the ranges to be revealed are marked', s.loc)
    f = ctx.fn(P + 'PartialTranscript::new'); s = ctx.summ(f)
    if s:
        for i, (d, ix) in enumerate(SIDES):
            ctx.value('C03.new.' + d, fld(s.ret, d), blank(s.args[i]), 'a new partial transcript is blank and of the given length', s.loc)
            v = fld(s.ret, ix)
            if v.op == 'call' and v.a[0].split('::')[-1] in ('default', 'new', 'empty') and len(v.a) == 2: ctx.ok('C03.new.' + ix)
            else: ctx.bad('C03.new.' + ix, 'a new partial transcript marks %s as authenticated' % show(v)[:200], s.loc)
    f = ctx.fn(P + 'Transcript::get'); s = ctx.summ(f)
    if s:
        L = Lang(ctx, s); end = L('end($2)'); sub = okval(s)
        for d, side in (('Sent', 'sent'), ('Received', 'received')):
            k = c_is(s.args[1], 'tlsn_core::transcript::Direction', d); n = length(fld(s.args[0], side))
            inb = OR(c_is(end, V.OPT, 'None'), c_le(fld(end, 'Some:0'), n))
            ctx.same('C03.get.%s.ok' % side, okcond(s), inb, 'data are returned exactly for ranges inside the %s transcript' % side, s.loc, care=k)
            if sub is not None:
                ctx.value('C03.get.%s.idx' % side, fld(sub, 'idx'), s.args[2], 'the ranges asked for', s.loc, care=AND(k, okcond(s)))
                bases = {x.a[2] for x in subterms(fld(sub, 'data')) if x.op == 'call' and x.a[0].endswith('::index')}
                for b in bases: ctx.value('C03.get.%s.data' % side, b, fld(s.args[0], side), 'the data of that direction', s.loc, care=k)
                if not bases: ctx.unk('C03.get.%s.data' % side, 'no lookup of the ranges in the data')
    gather(ctx)
    f = ctx.method('core::convert::From', P + 'PartialTranscript', 'from'); s = ctx.summ(f)
    if s:
        L = Lang(ctx, s)
        for d, ix, cd, ci, ct in (('sent', 'sent_authed_idx', 'sent_authed', 'sent_idx', 'sent_total'), ('received', 'received_authed_idx', 'received_authed', 'recv_idx', 'recv_total')):
            X = L('iter($0.%s)' % ci); v = fld(s.ret, d)
            off = offset_of(ctx, 'C03.decompress.' + d, s, v, X)
            if off is None: ctx.unk('C03.decompress.' + d, 'packed copy not recognised')
            else: ctx.value('C03.decompress.' + d, v, scatter(L, X, blank(fld(s.args[0], ct)), fld(s.args[0], cd), off), 'the %s bytes land in their ranges, everything else is blank' % d, s.loc)
            ctx.value('C03.decompress.' + ix, fld(s.ret, ix), fld(s.args[0], ci), 'exactly the given ranges are marked', s.loc)
    f = ctx.fn(P + 'PartialTranscript::is_complete'); s = ctx.summ(f)
    if s:
        L = Lang(ctx, s)
        sp = ANDS(*[same_int(L('len_($0.%s)' % ix) if False else setlen(L, fld(s.args[0], ix)), length(fld(s.args[0], d))) for d, ix in SIDES])
        ctx.same('C03.is_complete', V.cond(s.ret), sp, 'complete iff as many bytes are marked as there are, in both directions', s.loc)
    f = ctx.fn(P + 'PartialTranscript::contains'); s = ctx.summ(f)
    if s:
        L = Lang(ctx, s); end = L('end($2)')
        for d, side in (('Sent', 'sent'), ('Received', 'received')):
            ctx.same('C03.contains.' + side, V.cond(s.ret), OR(c_is(end, V.OPT, 'None'), c_le(fld(end, 'Some:0'), length(fld(s.args[0], side)))), 'ranges are contained iff they end within the transcript', s.loc,
                     care=c_is(s.args[1], 'tlsn_core::transcript::Direction', d))
    for d, ix in SIDES:
        f = ctx.fn(P + 'PartialTranscript::%s_unauthed' % d); s = ctx.summ(f)
        if s: ctx.value('C03.%s_unauthed' % d, s.ret, unauthed(Lang(ctx, s), s, d, ix), 'everything outside the authenticated ranges', s.loc)
    f = ctx.fn(P + 'PartialTranscript::set_unauthed'); s = ctx.summ(f)
    if s:
        L = Lang(ctx, s); fin = s.final(s.args[0])
        for d, ix in SIDES:
            X = L.find('iter', [unauthed(L, s, d, ix)]) or T('call', '?iter', '')
            e = V.elem(X); a, b = fld(e, 'start'), fld(e, 'end')
            ctx.value('C03.set_unauthed.' + d, fld(fin, d), V.mk_fold(X, fld(s.args[0], d), V.update(T('acc'), [('sl', a, b)], T('rep', s.args[1], V.sub(b, a)))), 'only bytes that are not authenticated are overwritten', s.loc)
            ctx.value('C03.set_unauthed.' + ix, fld(fin, ix), fld(s.args[0], ix), 'the marks do not change', s.loc)
    f = ctx.fn(P + 'PartialTranscript::set_unauthed_range'); s = ctx.summ(f)
    if s:
        L = Lang(ctx, s); fin = s.final(s.args[0])
        for d, ix in SIDES:
            k = c_is(s.args[2], 'tlsn_core::transcript::Direction', 'Sent' if d == 'sent' else 'Received')
            X = L('difference($3, $0.%s)' % ix); e = V.elem(X); a, b = fld(e, 'start'), fld(e, 'end')
            ctx.value('C03.set_unauthed_range.' + d, fld(fin, d), V.mk_fold(X, fld(s.args[0], d), V.update(T('acc'), [('sl', a, b)], T('rep', s.args[1], V.sub(b, a)))), 'only bytes of the range that are not authenticated are overwritten', s.loc, care=k)
            ctx.value('C03.set_unauthed_range.%s.other' % d, fld(fin, d), fld(s.args[0], d), 'the other direction does not change', s.loc, care=NOT(k))
            ctx.value('C03.set_unauthed_range.' + ix, fld(fin, ix), fld(s.args[0], ix), 'the marks do not change', s.loc)
    f = ctx.fn(P + 'PartialTranscript::union_transcript'); s = ctx.summ(f)
    if s:
        L = Lang(ctx, s); fin = s.final(s.args[0])
        pan = ORS(*[e.cond for e in s.events if e.kind == 'panic' and e.path.startswith('call:')])
        same = ANDS(*[same_int(length(fld(s.args[0], d)), length(fld(s.args[1], d))) for d, _ in SIDES])
        for d, ix in SIDES:
            ctx.require('C03.union_transcript.len.' + d, NOT(pan), same_int(length(fld(s.args[0], d)), length(fld(s.args[1], d))), 'transcripts of different length are not combined', s.loc)
            new = scatter(L, L('difference($1.%s, $0.%s)' % (ix, ix)), fld(s.args[0], d), fld(s.args[1], d))
            whole = scatter(L, L.find('iter', [fld(s.args[1], ix)]) or T('call', '?', ''), fld(s.args[0], d), fld(s.args[1], d))
            v = fld(fin, d)
            if ctx.tdiff(v, whole, same) is None: ctx.ok('C03.union_transcript.' + d)
            else: ctx.value('C03.union_transcript.' + d, v, new, 'bytes come from the other transcript only where it alone authenticates them', s.loc, care=same)
            marked(ctx, 'C03.union_transcript.' + ix, s, L, fld(fin, ix), fld(s.args[0], ix), fld(s.args[1], ix), same)
    f = ctx.fn(P + 'PartialTranscript::union_subsequence'); s = ctx.summ(f)
    if s:
        L = Lang(ctx, s); fin = s.final(s.args[0])
        for d, ix in SIDES:
            k = c_is(s.args[1], 'tlsn_core::transcript::Direction', 'Sent' if d == 'sent' else 'Received')
            X = L('iter($2.idx)'); v = under(fld(fin, d), k)
            off = offset_of(ctx, 'C03.union_subsequence.' + d, s, v, X)
            if off is None: ctx.unk('C03.union_subsequence.' + d, 'packed copy not recognised')
            else: ctx.value('C03.union_subsequence.' + d, v, scatter(L, X, fld(s.args[0], d), fld(s.args[2], 'data'), off), 'the bytes of the subsequence land in its ranges', s.loc, care=k)
            ctx.value('C03.union_subsequence.%s.other' % d, fld(fin, d), fld(s.args[0], d), 'the other direction does not change', s.loc, care=NOT(k))
            ctx.value('C03.union_subsequence.%s.other' % ix, fld(fin, ix), fld(s.args[0], ix), 'the marks of the other direction do not change', s.loc, care=NOT(k))
            marked(ctx, 'C03.union_subsequence.' + ix, s, L, under(fld(fin, ix), k), fld(s.args[0], ix), fld(s.args[2], 'idx'), k)
    for nm, sp in (('sent_unsafe', 'sent'), ('received_unsafe', 'received'), ('sent_authed', 'sent_authed_idx'), ('received_authed', 'received_authed_idx')):
        s = ctx.summ(ctx.fn(P + 'PartialTranscript::' + nm))
        if s: ctx.value('C03.' + nm, s.ret, fld(s.args[0], sp), 'accessor', s.loc)
    for nm, sp in (('len_sent', 'sent'), ('len_received', 'received')):
        s = ctx.summ(ctx.fn(P + 'PartialTranscript::' + nm))
        if s: ctx.value('C03.' + nm, s.ret, length(fld(s.args[0], sp)), 'accessor', s.loc)
    for nm, sp in (('len_of_direction', None), ('len', None)):
        s = ctx.summ(ctx.fn(P + 'Transcript::' + nm))
        if not s: continue
        a, b = length(fld(s.args[0], 'sent')), length(fld(s.args[0], 'received'))
        if nm == 'len': ctx.value('C03.len', s.ret, T('tup', a, b), 'the two lengths', s.loc)
        else:
            for d, x in (('Sent', a), ('Received', b)): ctx.value('C03.len_of_direction.' + d, s.ret, x, 'the length of the direction', s.loc, care=c_is(s.args[1], 'tlsn_core::transcript::Direction', d))
def gather(ctx):
    """packing a partial transcript: the bytes of the authenticated ranges, in order, and the lengths"""
    f = ctx.method('core::convert::From', P + 'CompressedPartialTranscript', 'from'); s = ctx.summ(f)
    if not s: return
    L = Lang(ctx, s)
    for d, ix, cd, ci, ct in (('sent', 'sent_authed_idx', 'sent_authed', 'sent_idx', 'sent_total'), ('received', 'received_authed_idx', 'received_authed', 'recv_idx', 'recv_total')):
        ctx.value('C03.compress.' + ci, fld(s.ret, ci), fld(s.args[0], ix), 'exactly the authenticated ranges are kept', s.loc)
        ctx.value('C03.compress.' + ct, fld(s.ret, ct), length(fld(s.args[0], d)), 'the total length is kept', s.loc)
        v = fld(s.ret, cd)
        X = L.find('Index::index', [fld(s.args[0], d), fld(s.args[0], ix)])
        looks = [x for x in subterms(v) if x.op == 'call' and x.a[0].endswith('::index')]
        if X is None and looks: ctx.bad('C03.compress.' + cd, 'bytes are taken from %s' % show(looks[0])[:200], s.loc)
        elif X is None: ctx.unk('C03.compress.' + cd, 'no lookup of the ranges in the data')
        else: ctx.value('C03.compress.' + cd, v, V.mkseq([T('s', T('flat', X, V.mkseq([T('s', V.elem(X))])))]), 'the bytes of the authenticated ranges, in order', s.loc)
def setlen(L, r):
    """number of elements of a range set"""
    x = L.find('RangeSet::len', [r])
    return x if x is not None else T('call', '?RangeSet::len', '', r)
def unauthed(L, s, d, ix):
    rng = agg('core::ops::range::Range', 'Range', ['start', 'end'], [I(0), length(fld(s.args[0], d))])
    x = L.find('difference', [rng, fld(s.args[0], ix)])
    y = x and L.find('into_set', [x])
    return y if y is not None else T('call', '?unauthed', '', fld(s.args[0], ix))
def marked(ctx, key, s, L, v, old, new, care):
    """marks after a union: exactly those of either part"""
    for nm in ('union_mut', 'union'):
        for a, b in ((old, new), (new, old)):
            x = L.find(nm, [a, b])
            if x is not None:
                for y in (T('eff', x, 0), x, L.find('into_set', [x])):
                    if y is not None and ctx.tdiff(v, y, care) is None: ctx.ok(key); return
    ctx.bad(key, 'authenticated ranges become %s' % show(v)[:300], s.loc)

# ---------------------------------------------------------------- transcript proofs
def quant(okc, X):
    """what acceptance implies about every element of X: conjunction of the quantified conditions (None: nothing quantified)"""
    q, found = 1, False
    for v in sorted(B.support(okc)):
        k = ATOMS[v]
        if k[0] == 'b' and k[1].op == 'all' and V.coll(k[1].a[0]) is V.coll(X) and AND(okc, NOT(var(v))) == 0:
            q = AND(q, k[1].a[1]); found = True
    return q if found else None
def mentions(c, X):
    return any(contains(ATOMS[v][1], lambda y: y is X) for v in B.support(c) if isinstance(ATOMS[v][1], Term))
def atoms_of(c, op): return [(v, ATOMS[v][1]) for v in sorted(B.support(c)) if ATOMS[v][0] == 'b' and ATOMS[v][1].op == op]
DIRT = 'tlsn_core::transcript::Direction'
def eq_fields(ctx, key, f, spec, msg):
    s = ctx.summ(f)
    if s: ctx.same(key, V.cond(s.ret), ANDS(*[g(fld(s.args[0], p), fld(s.args[1], p)) for p, g in spec]), msg, s.loc)
def same_dir(a, b): return ORS(same_int(T('discr', a), T('discr', b)), AND(c_is(a, DIRT, 'Sent'), c_is(b, DIRT, 'Sent')), AND(c_is(a, DIRT, 'Received'), c_is(b, DIRT, 'Received')))
def same_bytes(a, b): return c_eq(a, b)

def C04(ctx):
    start(ctx)
    f = ctx.fn(P + 'proof::TranscriptProof::verify_with_provider'); s = ctx.summ(f)
    if s:
        okc = okcond(s); A = s.args; TP = fld(A[0], 'transcript')
        for d, ix in SIDES:
            ctx.require('C04.len.' + d, okc, same_int(length(fld(TP, d)), fld(A[2], d)), 'the %s transcript has the attested length' % d, s.loc)
        v = okval(s)
        ctx.value('C04.value', v, TP, 'the partial transcript that was verified is returned', s.loc, care=okc)
        HS = fld(A[0], 'hash_secrets'); E = V.elem(HS); L = Lang(ctx, s, E=E)
        Q = quant(okc, HS)
        if Q is None:
            if mentions(okc, HS): ctx.unk('C04.openings', 'how the openings are visited was not recognised')
            else: ctx.bad('C04.openings', 'openings are not checked: accepted when %s' % showc(okc, lim=1)[:600], s.loc)
        else:
            g = L('HashMap::get($1.algs, E.alg)')
            ctx.require('C04.alg', Q, c_is(g, V.OPT, 'Some'), 'every opening uses a known hash algorithm', s.loc)
            end = L('RangeSet::end(E.idx)')
            ins = atoms_of(Q, 'setin')
            ins = [(v, t) for v, t in ins if AND(Q, NOT(var(v))) == 0]
            if not ins:
                if any(mentions(Q, x) for x in (A[3], V.elem(A[3]))): ctx.unk('C04.opening', 'comparison of the openings with the commitments not recognised: %s' % showc(Q, lim=1)[:300])
                else: ctx.bad('C04.opening', 'an opening is accepted without a matching commitment: %s' % showc(Q, lim=1)[:600], s.loc)
            for d, ix in SIDES:
                k = c_is(fld(E, 'direction'), DIRT, d.capitalize()); data = fld(TP, d)
                ctx.require('C04.range.' + d, AND(Q, k), OR(c_is(end, V.OPT, 'None'), c_le(fld(end, 'Some:0'), length(data))), 'the ranges of an opening lie within the %s transcript' % d, s.loc)
                for v, t in ins[:1]:
                    S, ph = t.a
                    care = AND(Q, k)
                    ctx.value('C04.opening.direction.' + d, fld(ph, 'direction'), fld(E, 'direction'), 'the commitment opened has the direction of the opening', s.loc, care=care)
                    ctx.value('C04.opening.idx.' + d, fld(ph, 'idx'), fld(E, 'idx'), 'the commitment opened covers the ranges of the opening', s.loc, care=care)
                    X = L('RangeSet::iter(E.idx)'); e = V.elem(X); hs = fld(g, 'Some:0')
                    buf = V.mkseq([T('s', T('flat', X, V.mkseq([T('s', V.mkslice(data, fld(e, 'start'), fld(e, 'end')))])))])
                    opening_hash(ctx, 'C04.opening.hash.' + d, under(fld(ph, 'hash'), k), L, hs, buf, fld(E, 'blinder.0'), care, k, s)
            for v, t in ins[:1]:
                S = t.a[0]; ok_S = V.mk_fold(A[3], T('set0'), T('seti', T('acc'), fld(V.elem(A[3]), 'Hash:0')))
                if S is ok_S or S.op == 'setof' and V.coll(S.a[0]).op == 'coll' and V.coll(S.a[0]).a[1] is fld(V.elem(A[3]), 'Hash:0'): ctx.ok('C04.commitments')
                elif contains(S, lambda y: y is A[3]): ctx.unk('C04.commitments', 'set of attested commitments: %s' % show(S)[:300])
                else: ctx.bad('C04.commitments', 'openings are compared with %s instead of the attested commitments' % show(S)[:300], s.loc)
        # union of the openings = the revealed ranges
        for d, ix in SIDES:
            k = c_is(fld(E, 'direction'), DIRT, d.capitalize())
            auth = fld(TP, ix); hit = False
            for v, t in atoms_of(okc, 'eq'):
                if AND(okc, NOT(var(v))) != 0 or not any(x is auth for x in t.a): continue
                o = [x for x in t.a if x is not auth]
                if not o: continue
                hit = True; o = o[0]
                um = [x for x in subterms(o) if x.op == 'call' and x.a[0].split('::')[-1] in ('union_mut', 'union')]
                sp = [V.mk_fold(HS, i, choice([(k, w), (NOT(k), T('acc'))])) for i in empties(o) for x in um for w in (T('eff', x, 0), x) if len(x.a) == 4 and x.a[2] is T('acc') and x.a[3] is fld(E, 'idx')]
                if any(ctx.tdiff(o, y) is None for y in sp): ctx.ok('C04.union.' + d)
                elif o.op == 'fold' and o.a[0] is V.coll(HS): ctx.bad('C04.union.' + d, 'the revealed %s ranges are compared with %s instead of the union of the opened ranges' % (d, show(o)[:400]), s.loc)
                else: ctx.unk('C04.union.' + d, 'compared with %s' % show(o)[:300])
            if not hit:
                if mentions(okc, auth): ctx.unk('C04.union.' + d, 'comparison of the revealed ranges not recognised')
                else: ctx.bad('C04.union.' + d, 'the revealed %s ranges are not compared with the opened ones' % d, s.loc)
    plaintext_eq(ctx, 'C04')
def plaintext_eq(ctx, p):
    H = 'hash::'
    f = ctx.method('core::cmp::PartialEq', P + 'hash::PlaintextHash', 'eq'); s = ctx.summ(f)
    if s:
        a, b = s.args; c = V.cond(s.ret)
        ctx.require(p + '.eq.direction', c, same_dir(fld(a, 'direction'), fld(b, 'direction')), 'equal commitments have one direction', s.loc)
        ctx.require(p + '.eq.idx', c, c_eq(fld(a, 'idx'), fld(b, 'idx')), 'equal commitments cover the same ranges', s.loc)
        ctx.require(p + '.eq.alg', c, same_int(fld(a, 'hash.alg.0'), fld(b, 'hash.alg.0')), 'equal commitments use one algorithm', s.loc)
        ctx.require(p + '.eq.value', c, c_eq(fld(a, 'hash.value.value'), fld(b, 'hash.value.value')), 'equal commitments have the same digest', s.loc)
        ctx.require(p + '.eq.len', c, same_int(fld(a, 'hash.value.len'), fld(b, 'hash.value.len')), 'equal commitments have digests of the same length', s.loc)
def empties(o):
    return sorted({x for x in subterms(o) if x.op == 'call' and len(x.a) == 2 and x.a[0].split('::')[-1] in ('default', 'new', 'empty')}, key=lambda x: x.id)
def opening_hash(ctx, key, h, L, hs, buf, blinder, care, k, s):
    """h = TypedHash of (blinder-suffixed) plaintext under hasher hs"""
    ctx.value(key + '.alg', fld(h, 'alg'), L.find('id', [hs]) or T('call', '?id', '', hs), 'the algorithm of the commitment is the one that was used', s.loc, care=care)
    v = fld(h, 'value')
    if v.op != 'call' or v.a[0].split('::')[-1] != 'hash_prefixed' or len(v.a) != 5:
        for x in digest_parts(v):
            if x is None: break
        ctx.unk(key + '.value', 'digest: %s' % show(v)[:200]) if contains(v, lambda y: y.op == 'call' and y.a[0].split('::')[-1] in ('hash', 'hash_prefixed')) and contains(v, lambda y: y is blinder) else ctx.bad(key + '.value', 'the digest is %s' % show(v)[:300], s.loc)
        return
    ctx.value(key + '.hasher', v.a[2], hs, 'hashed with the algorithm named', s.loc, care=care)
    ctx.value(key + '.data', under(v.a[3], k), buf, 'the hash is over exactly the bytes of the ranges', s.loc, care=care)
    ctx.value(key + '.blinder', v.a[4], blinder, 'the hash includes the blinder', s.loc, care=care)
def digest_parts(v): return []

def C05(ctx):
    start(ctx)
    f = ctx.fn(P + 'hash::hash_plaintext'); s = ctx.summ(f)
    if s:
        L = Lang(ctx, s)
        opening_hash(ctx, 'C05.hash', s.ret, L, s.args[0], s.args[1], fld(s.args[2], '0'), 1, 1, s)
    for ty in ('Sha256', 'Blake3', 'Keccak256'): pass
    f = ctx.fn('hash::Blinder::as_bytes', required=False); s = ctx.summ(f) if f else None
    if s: ctx.value('C05.blinder.bytes', s.ret, fld(s.args[0], '0'), 'the whole blinder is used', s.loc)
    # a blinder is 16 bytes, all of them from the generator
    n = blinder_len(ctx)
    if n is None: ctx.unk('C05.blinder.size', 'field type not recognised')
    elif n >= 16: ctx.ok('C05.blinder.size')
    else: ctx.bad('C05.blinder.size', 'a blinder has only %d bytes' % n, 'tlsn_core::hash::Blinder')
    fs = [x for x in ctx.db.fns if re.search(r'Distribution<.*hash::Blinder> for .*::sample$|hash::.*Distribution.*Blinder.*::sample$', x)]
    for x in fs: fresh(ctx, 'C05.blinder.sample', ctx.summ(x), lambda s: fld(s.ret, '0'), n or 16)
    if not fs: ctx.unk('C05.blinder.sample', 'no sampling of blinders found')
    for x in [x for x in ctx.db.fns if re.search(r'hash::Blinded(<.*>)?::new$', norm(x))]:
        s = ctx.summ(x); b = fld(s.ret, 'blinder') if s else None
        if s is None: continue
        ctx.value('C05.blinded.data', fld(s.ret, 'data'), s.args[0], 'the value given is blinded', s.loc)
        if any(y.op == 'call' and re.search(r'^rand(_core)?::', y.a[0]) for y in subterms(b)) or b.op == 'call' and b.a[0].split('::')[-1] == 'random': ctx.ok('C05.blinded.fresh')
        elif b.op in ('agg', 'rep', 'arr', 'const', 'bytes') or b.op == 'call' and b.a[0].split('::')[-1] in ('default', 'zeroed'): ctx.bad('C05.blinded.fresh', 'the blinder is %s' % show(b)[:200], s.loc)
        else: ctx.unk('C05.blinded.fresh', 'blinder: %s' % show(b)[:200])
    for x in [x for x in ctx.db.fns if re.search(r'hash::Blinded(<.*>)?::new_with_blinder$', norm(x))]:
        s = ctx.summ(x)
        if s: ctx.value('C05.blinded.with', s.ret, Lang(ctx, s)('Blinded{data: $0, blinder: $1}'), 'the blinder given is used', s.loc)
    maker = [x for x in ctx.db.fns if builds(ctx, x, 'tlsn_core::hash::Blinder') and not re.search(r'::(sample|clone|visit_\w+|deserialize)$', norm(x)) and not re.search('Blinded', x)]
    if maker: ctx.unk('C05.makers', 'other constructors of blinders: %s' % maker[:3])
    else: ctx.ok('C05.makers')
    plaintext_eq(ctx, 'C05')
def blinder_len(ctx):
    a = next((a for p, a in ctx.db.adts.items() if p.endswith('hash::Blinder')), None)
    if not a: return None
    t = a['variants'][0][2][0][1]
    return t[2] if t[0] == 'array' and t[1] == ['prim', 'u8'] and isinstance(t[2], int) else None
def fresh(ctx, key, s, get, n):
    if s is None: return
    v = get(s); rng = s.args[-1]
    fills = [e for e in s.events if e.kind == 'call' and re.search(r'::(fill|fill_bytes|try_fill\w*)$', e.path)]
    if v.op == 'eff' and v.a[0].op == 'call' and re.search(r'::(fill|fill_bytes|try_fill\w*)$', v.a[0].a[0]): 
        d = v.a[0].a[3]
        if length(d) is I(n) or V.is_int(length(d)) and length(d).a[0] == n: ctx.ok(key)
        else: ctx.bad(key, 'only %s bytes are drawn' % show(length(d)), s.loc)
    elif v.op == 'call' and re.search(r'::(random|gen|sample|r#gen)$', v.a[0]): ctx.ok(key)
    elif not fills and not any(y.op == 'call' for y in subterms(v)): ctx.bad(key, 'the blinder is %s' % show(v)[:200], s.loc)
    elif v.op == 'upd' and fills: ctx.bad(key, 'the generator does not fill the whole blinder: %s' % show(v)[:300], s.loc)
    else: ctx.unk(key, 'blinder: %s' % show(v)[:200])

# ---------------------------------------------------------------- deserialisation
def de_fns(ctx, ty):
    """the functions that build a value of the type from serialised data: `deserialize`, or its visitor when that is where the value is built"""
    rx = re.compile(r"Deserialize<'de> for tlsn_core::%s>::deserialize$" % re.escape(ty))
    return [f for f in sorted(ctx.db.fns) if rx.search(f)] + [f for f in sorted(ctx.db.fns) if re.search(r'^<tlsn_core::%s as serde\w*::(de::)?Deserialize.*>::deserialize$' % re.escape(ty), f)]
def opaque_de(v): return v is not None and v.op == 'fld' and any(x.op == 'call' and re.search(r'Deserializer::deserialize_\w+$', x.a[0]) for x in [w for w in subterms(v)])
def invariant(ctx, key, ty, inv, msg):
    """every value that can be deserialised satisfies inv(ctx, summary, value) -> [(name, condition)]"""
    fs = de_fns(ctx, ty)
    if not fs: ctx.unk(key, 'no deserialiser of %s found' % ty); return
    for f in fs[:1]:
        s = ctx.summ(f)
        if s is None: continue
        v = okval(s); okc = okcond(s)
        if v is not None and v.op != 'agg' and v.op != 'choice':
            # built by a visitor of this crate: its visit functions produce the value
            vs = [g for g in sorted(ctx.db.fns) if re.search(r"for tlsn_core::%s>::deserialize::__Visitor.*::visit_(seq|map|newtype_struct)$" % re.escape(ty), g)]
            own = contains(v, lambda y: y.op == 'str' and y.a[0] == ty.split('::')[-1])
            if vs and own:
                for g in vs:
                    t = ctx.summ(g)
                    if t is None: continue
                    w = okval(t)
                    if w is None: continue
                    for nm, c in inv(ctx, t, w): ctx.require('%s.%s.%s' % (key, nm, g.rsplit('_', 1)[-1]), okcond(t), c, msg + ' (deserialised without the check)', t.loc)
                continue
        for nm, c in inv(ctx, s, v): ctx.require('%s.%s' % (key, nm), okc, c, msg, s.loc)
def rs_len(ctx, s, r): return Lang(ctx, s).find('RangeSet::len', [r]) or T('call', '?RangeSet::len', '', r)
def rs_in(ctx, s, r, n):
    e = Lang(ctx, s).find('RangeSet::end', [r]) or T('call', '?RangeSet::end', '', r)
    return OR(c_is(e, V.OPT, 'None'), c_le(fld(e, 'Some:0'), n))
def inv_cpt(ctx, s, v):
    return [('sent.len', same_int(length(fld(v, 'sent_authed')), rs_len(ctx, s, fld(v, 'sent_idx')))), ('recv.len', same_int(length(fld(v, 'received_authed')), rs_len(ctx, s, fld(v, 'recv_idx')))),
            ('sent.range', rs_in(ctx, s, fld(v, 'sent_idx'), fld(v, 'sent_total'))), ('recv.range', rs_in(ctx, s, fld(v, 'recv_idx'), fld(v, 'recv_total')))]
def inv_pt(ctx, s, v): return [(ix, rs_in(ctx, s, fld(v, ix), length(fld(v, d)))) for d, ix in SIDES]
def inv_sub(ctx, s, v): return [('len', same_int(rs_len(ctx, s, fld(v, 'idx')), length(fld(v, 'data'))))]
def inv_mpc(ctx, s, v): return [('online', c_le(fld(v, 'max_recv_data_online'), fld(v, 'max_recv_data')))]
def valid_dns(ctx, s, v):
    """the name was accepted by the name parser"""
    n = fld(v, '0'); g = 0
    base = n.a[2] if n.op == 'call' and len(n.a) == 3 else n
    for e in ctx.events(s, r'DnsName::try_from(_str)?$|DnsName(<.*>)? as .*TryFrom.*try_from$'):
        if e.args and (ctx.tdiff(e.args[0], base) is None or ctx.tdiff(e.args[0], n) is None) and 'rustls_pki_types' in e.path or 'pki_types' in e.path: g = OR(g, is_ok(e.res))
    return [('syntax', g)]

def C06(ctx):
    start(ctx)
    invariant(ctx, 'C06.compressed', 'transcript::CompressedPartialTranscript', inv_cpt, 'packed data match their ranges, which lie within the transcript')
    invariant(ctx, 'C06.partial', 'transcript::PartialTranscript', inv_pt, 'authenticated ranges lie within the transcript')
    invariant(ctx, 'C06.subsequence', 'transcript::Subsequence', inv_sub, 'data match their ranges')
    invariant(ctx, 'C06.mpc', 'config::tls_commit::mpc::MpcTlsConfig', inv_mpc, 'the online limit does not exceed the total')
    invariant(ctx, 'C06.dns', 'connection::DnsName', valid_dns, 'a server name is a valid DNS name')
    s = ctx.summ(ctx.fn(P + 'Subsequence::new'))
    if s:
        for nm, c in inv_sub(ctx, s, okval(s)): ctx.require('C06.subsequence.new.' + nm, okcond(s), c, 'data match their ranges', s.loc)
        ctx.value('C06.subsequence.new.idx', fld(okval(s), 'idx'), s.args[0], 'the ranges given', s.loc); ctx.value('C06.subsequence.new.data', fld(okval(s), 'data'), s.args[1], 'the data given', s.loc)
    s = ctx.summ(ctx.fn('config::tls_commit::mpc::MpcTlsConfigBuilder::build'))
    if s: ctx.require('C06.mpc.build', okcond(s), inv_mpc(ctx, s, okval(s))[0][1], 'the online limit does not exceed the total', s.loc)
    for f in [f for f in sorted(ctx.db.fns) if re.search(r'connection::DnsName as core::convert::TryFrom<.*>>::try_from$', f)]:
        s = ctx.summ(f)
        if s:
            ctx.require('C06.dns.' + ('string' if 'String' in f else 'str'), okcond(s), valid_dns(ctx, s, okval(s))[0][1], 'a server name is a valid DNS name', s.loc)
            n = fld(okval(s), '0'); n = n.a[2] if n.op == 'call' and len(n.a) == 3 else n
            ctx.value('C06.dns.value.' + ('string' if 'String' in f else 'str'), n, s.args[0], 'the name that was checked is the one kept', s.loc)
    fs = [f for f in ctx.db.fns if builds(ctx, f, 'tlsn_core::connection::DnsName')]
    odd = [f for f in fs if not re.search(r'::(try_from|clone|deserialize|visit_\w+)$', norm(f))]
    if odd: ctx.unk('C06.dns.makers', 'other constructors of DNS names: %s' % odd[:3])
    else: ctx.ok('C06.dns.makers')
    makers(ctx, 'C06.mpc.makers', 'tlsn_core::config::tls_commit::mpc::MpcTlsConfig', r'::(build|try_from|clone|validate)$')
    makers(ctx, 'C06.subsequence.makers', 'tlsn_core::transcript::Subsequence', r'::(new|clone|get)$')
    hash_de(ctx, 'C06')
def makers(ctx, key, ty, allowed):
    odd = [f for f in ctx.db.fns if builds(ctx, f, ty) and not re.search(allowed, norm(f)) and 'fixtures' not in f]
    if odd: ctx.unk(key, 'other constructors: %s' % odd[:3])
    else: ctx.ok(key)

def C09(ctx):
    start(ctx)
    K = 'config::tls_commit::mpc::'
    f = ctx.fn(K + 'MpcTlsConfigBuilder::build'); s = ctx.summ(f); A = s.args[0] if s else None
    if s:
        okc = okcond(s); v = okval(s)
        ctx.require('C09.build.online', okc, c_le(fld(v, 'max_recv_data_online'), fld(v, 'max_recv_data')), 'the online limit does not exceed the total', s.loc)
        sm = lambda n: c_is(fld(A, n), V.OPT, 'Some')
        for n in ('max_sent_data', 'max_recv_data'):
            ctx.require('C09.build.required.' + n, okc, sm(n), '%s must be given' % n, s.loc)
            ctx.value('C09.build.' + n, fld(v, n), fld(fld(A, n), 'Some:0'), '%s is the given limit' % n, s.loc, care=okc)
        for n in ('max_sent_records', 'max_recv_records_online'):
            ctx.value('C09.build.' + n, fld(v, n), fld(A, n), '%s is the given limit, if any' % n, s.loc, care=okc)
        net = ctx.db.adts.get('tlsn_core::config::tls_commit::mpc::NetworkSetting')
        for n, d in (('max_recv_data_online', I(32)), ('defer_decryption_from_start', V.Bt(1)), ('network', agg('tlsn_core::config::tls_commit::mpc::NetworkSetting', 'Latency', [], []))):
            ctx.value('C09.build.%s.given' % n, fld(v, n), fld(fld(A, n), 'Some:0'), '%s is the given value' % n, s.loc, care=AND(okc, sm(n)))
            ctx.value('C09.build.%s.default' % n, fld(v, n), d, 'default of ' + n, s.loc, care=AND(okc, NOT(sm(n))))
    for n in ('max_sent_data', 'max_recv_data', 'max_sent_records', 'max_recv_records_online', 'max_recv_data_online', 'defer_decryption_from_start', 'network'):
        s = ctx.summ(ctx.fn(K + 'MpcTlsConfig::' + n))
        if s: ctx.value('C09.get.' + n, s.ret, fld(s.args[0], n), 'accessor', s.loc)
        s = ctx.summ(ctx.fn(K + 'MpcTlsConfigBuilder::' + n))
        if s: ctx.value('C09.set.' + n, s.ret, V.update(s.args[0], [('f', None, n)], V.Some(s.args[1])), 'sets %s and nothing else' % n, s.loc)
    invariant(ctx, 'C09.received', K + 'MpcTlsConfig', inv_mpc, 'the online limit of a received configuration does not exceed the total')
    makers(ctx, 'C09.makers', 'tlsn_core::config::tls_commit::mpc::MpcTlsConfig', r'::(build|try_from|clone|validate)$')
    for f in de_fns(ctx, K + 'MpcTlsConfig')[:1]:
        s = ctx.summ(f); v = okval(s) if s else None
        if v is None or v.op != 'agg': continue
        src = {fld(v, 'max_recv_data').a[0] if fld(v, 'max_recv_data').op == 'fld' else None}
        for n in v.a[2].split(','):
            x = fld(v, n)
            if x.op == 'fld' and x.a[-1] == n and x.a[0] in src: ctx.ok('C09.received.' + n)
            elif x.op == 'fld' and x.a[0] in src: ctx.bad('C09.received.' + n, '%s is taken from %s' % (n, show(x)[-100:]), s.loc)
            else: ctx.unk('C09.received.' + n, show(x)[:200])

# ---------------------------------------------------------------- server identity
SIGS = {'ECDSA_NISTP256_SHA256': 'ECDSA_P256_SHA256', 'ECDSA_NISTP256_SHA384': 'ECDSA_P256_SHA384', 'ECDSA_NISTP384_SHA256': 'ECDSA_P384_SHA256', 'ECDSA_NISTP384_SHA384': 'ECDSA_P384_SHA384', 'ED25519': 'ED25519',
        **{n: n for n in ('RSA_PKCS1_2048_8192_SHA256', 'RSA_PKCS1_2048_8192_SHA384', 'RSA_PKCS1_2048_8192_SHA512', 'RSA_PSS_2048_8192_SHA256_LEGACY_KEY', 'RSA_PSS_2048_8192_SHA384_LEGACY_KEY', 'RSA_PSS_2048_8192_SHA512_LEGACY_KEY')}}
SA = 'tlsn_core::connection::SignatureAlgorithm'
def parsed(s, der, what):
    """results of parsing exactly `der` as a `what`"""
    return [e for e in s.events if e.kind == 'call' and e.path.endswith('TryFrom::try_from') and e.args and e.args[0] is der and e.res is not None and what in str(e.res.a[1])]
def cert_of(ctx, key, s, der):
    ps = parsed(s, der, 'EndEntityCert')
    return okv(ps[0].res) if ps else None
def C07(ctx):
    start(ctx)
    EEC = r'^webpki::.*EndEntityCert::'
    f = ctx.fn('webpki::ServerCertVerifier::verify_server_cert'); s = ctx.summ(f)
    if s:
        A = s.args; chain_rule(ctx, 'C07.cert', s, fld(A[0], 'roots'), fld(A[1], '0'), A[2], A[3], A[4])
    f = ctx.fn('connection::HandshakeData::verify'); s = ctx.summ(f)
    if s:
        A = s.args; okc = okcond(s); b = fld(fld(A[0], 'binding'), 'V1_2:0')
        key, att = A[3], fld(b, 'server_ephemeral_key')
        ctx.require('C07.key', okc, c_eq(fld(key, 'key'), fld(att, 'key')), 'the ephemeral key of the connection is the one that was signed', s.loc)
        certs = fld(A[0], 'certs'); n = length(certs)
        ctx.require('C07.nonempty', okc, V.c_lt(I(0), n), 'the certificate chain is not empty', s.loc)
        leaf = fld(proj(certs, ('i', I(0))), '0')
        chain_rule(ctx, 'C07.chain', s, fld(A[1], 'roots'), leaf, V.mkslice(certs, I(1), n), A[4], A[2])
        cert = cert_of(ctx, 'C07.sig', s, leaf)
        evs = ctx.events(s, EEC + 'verify_signature$')
        if cert is None or not evs:
            if okc != 0: ctx.bad('C07.sig', 'accepted without verifying the signature over the key-exchange parameters', s.loc)
        else:
            e = evs[0]; k0 = fld(key, 'key')
            ctx.require('C07.sig', okc, ORS(*[is_ok(x.res) for x in evs]), 'the signature over the key-exchange parameters verifies', s.loc)
            for x in evs:
                ctx.value('C07.sig.cert', x.args[0], cert, 'verified with the key of the server certificate', s.loc, care=x.cond)
                rnd = lambda k: V.mkseq([T('s', fld(b, 'client_random')), T('s', fld(b, 'server_random')), T('e', I(3)), T('e', I(0)), T('e', I(23)), T('e', V.trunc(length(k), 8)), T('s', k)])
                if ctx.tdiff(x.args[2], rnd(fld(att, 'key')), x.cond) is None: ctx.ok('C07.sig.message')       # the two keys are equal at this point
                else: ctx.value('C07.sig.message', x.args[2], rnd(k0), 'the signed message is both randoms and the key-exchange parameters', s.loc, care=x.cond)
                ctx.value('C07.sig.sig', x.args[3], fld(A[0], 'sig.sig'), 'the signature of the handshake data', s.loc, care=x.cond)
                alg = fld(A[0], 'sig.alg')
                for nm, w in SIGS.items():
                    k = AND(x.cond, c_is(alg, SA, nm)); k = AND(k, valid2(k))
                    if k == 0: continue
                    v = under(x.args[1], k)
                    if v.op == 'static' and v.a[0].split('::')[-1] == w: ctx.ok('C07.sig.alg.' + nm)
                    elif v.op == 'static': ctx.bad('C07.sig.alg.' + nm, '%s is verified as %s' % (nm, v.a[0].split('::')[-1]), s.loc)
                    else: ctx.unk('C07.sig.alg.' + nm, 'algorithm: %s' % show(v)[:200])
        # the other versions of the binding are refused
    f = ctx.method('core::convert::From', 'connection::SignatureAlgorithm', 'from'); s = ctx.summ(f)
    if s:
        for nm in SIGS:
            v = under(s.ret, c_is(s.args[0], 'tls_core::verify::SignatureAlgorithm', nm))
            if v.op == 'agg' and v.a[1] == nm: ctx.ok('C07.alg.' + nm)
            elif v.op == 'agg': ctx.bad('C07.alg.' + nm, '%s is recorded as %s' % (nm, v.a[1]), s.loc)
            else: ctx.unk('C07.alg.' + nm, show(v)[:200])
    f = ctx.method('core::convert::TryFrom', 'connection::ServerEphemKey', 'try_from'); s = ctx.summ(f)
    if s:
        ctx.require('C07.key.group', okcond(s), c_is(fld(s.args[0], 'group'), 'tls_core::msgs::enums::NamedGroup', 'secp256r1'), 'only secp256r1 keys are recorded as such', s.loc)
        ctx.value('C07.key.bytes', fld(okval(s), 'key'), fld(s.args[0], 'key'), 'the key is recorded unchanged', s.loc)
    f = ctx.fn('connection::ServerEphemKey::kx_params'); s = ctx.summ(f)
    if s:
        k = fld(s.args[0], 'key')
        ctx.value('C07.kx', s.ret, V.mkseq([T('e', I(3)), T('e', I(0)), T('e', I(23)), T('e', V.trunc(length(k), 8)), T('s', k)]), 'key-exchange parameters as in TLS: named curve, secp256r1, length, point', s.loc)
    f = ctx.method('core::cmp::PartialEq', 'connection::ServerEphemKey', 'eq'); s = ctx.summ(f)
    if s: ctx.require('C07.key.eq', V.cond(s.ret), c_eq(fld(s.args[0], 'key'), fld(s.args[1], 'key')), 'equal keys have equal bytes', s.loc)
    f = ctx.method('core::convert::TryFrom', 'connection::TlsVersion', 'try_from'); s = ctx.summ(f)
    if s:
        for a, b_ in (('TLSv1_2', 'V1_2'), ('TLSv1_3', 'V1_3')):
            k = c_is(s.args[0], 'tls_core::msgs::enums::ProtocolVersion', a)
            ctx.value('C07.version.' + b_, okval(s), agg('tlsn_core::connection::TlsVersion', b_, [], []), 'protocol version', s.loc, care=AND(k, okcond(s)))
        ctx.require('C07.version', okcond(s), discr_is(s.args[0], 'tls_core::msgs::enums::ProtocolVersion', 'TLSv1_2', 'TLSv1_3'), 'only TLS 1.2 and 1.3 are recorded', s.loc)
    f = ctx.fn('webpki::ServerCertVerifier::new'); s = ctx.summ(f)
    if s:
        R = fld(s.args[0], 'roots'); e = V.elem(R); okc = okcond(s)
        evs = ctx.events(s, r'anchor_from_trusted_cert$')
        if not evs: ctx.unk('C07.roots', 'how roots are read was not recognised')
        for x in evs[:1]:
            ctx.value('C07.roots.der', x.args[0], fld(e, '0'), 'every root is read from its own certificate', s.loc)
            ctx.require('C07.roots.all', okc, M.mk_all(R, is_ok(x.res)), 'an unreadable root is refused', s.loc)
            v = fld(okval(s), 'roots')
            if v.op == 'coll' and v.a[0] is V.coll(R) and contains(v.a[1], lambda y: y is x.res): ctx.ok('C07.roots')
            elif v.op == 'coll' or v.op in ('seq', 'rep', 'arr'): ctx.bad('C07.roots', 'the trusted roots are %s' % show(v)[:300], s.loc)
            else: ctx.unk('C07.roots', 'trusted roots: %s' % show(v)[:200])
def chain_rule(ctx, p, s, roots, leaf, rest, name, time):
    """Ok implies that the chain verifies for server authentication at the time, from the trusted roots, and that the name matches"""
    okc = okcond(s); A = s.args
    cert = cert_of(ctx, p, s, leaf)
    if cert is None:
        if ctx.events(s, r'^webpki::.*EndEntityCert::'): ctx.bad(p, 'the certificate parsed is not the server\'s', s.loc)
        else: ctx.bad(p, 'accepted without parsing the server certificate', s.loc)
        return
    U = ctx.events(s, r'^webpki::.*EndEntityCert::verify_for_usage$')
    ctx.require(p + '.path', okc, ORS(*[is_ok(e.res) for e in U]), 'the chain verifies', s.loc)
    ts = [x for e in s.events if e.res is not None and e.kind == 'call' and e.path.endswith('since_unix_epoch') for x in [e.res] if contains(x, lambda y: y is time)]
    for e in U[:1]:
        c, algs, rts, inter, tm, usage = e.args[:6]
        ctx.value(p + '.path.cert', c, cert, 'the chain starts at the server certificate', s.loc)
        if algs.op == 'static' and algs.a[0] == 'webpki::ALL_VERIFICATION_ALGS': ctx.ok(p + '.path.algs')
        else: ctx.unk(p + '.path.algs', 'algorithms: %s' % show(algs)[:200])
        ctx.value(p + '.path.roots', rts, roots, 'the chain ends at a trusted root', s.loc)
        want = M.materialize(T('map', rest, fld(V.elem(rest), '0')))
        ctx.value(p + '.path.intermediates', inter, want, 'the intermediates are the other certificates of the chain', s.loc)
        t = tm
        while t.op == 'call' and len(t.a) == 3: t = t.a[2]
        if t is not time: ctx.bad(p + '.path.time', 'validity is checked at %s' % show(tm)[:200], s.loc)
        elif [x.a[0].split('::')[-1] for x in subterms(tm) if x.op == 'call'] and {x.a[0].split('::')[-1] for x in subterms(tm) if x.op == 'call' and x.a[0].split('::')[-1].startswith('from_')} <= {'from_secs'}: ctx.ok(p + '.path.time')
        else: ctx.bad(p + '.path.time', 'the time of the connection (seconds) is converted as %s' % show(tm)[:200], s.loc)
        if usage.op == 'call' and usage.a[0].split('::')[-1] == 'server_auth': ctx.ok(p + '.path.usage')
        else: ctx.bad(p + '.path.usage', 'the chain is verified for %s' % show(usage)[:100], s.loc)
    N = ctx.events(s, r'^webpki::.*EndEntityCert::verify_is_valid_for_subject_name$')
    ctx.require(p + '.name', okc, ORS(*[is_ok(e.res) for e in N]), 'the certificate is valid for the name', s.loc)
    for e in N[:1]:
        ctx.value(p + '.name.cert', e.args[0], cert, 'the name is checked in the server certificate', s.loc)
        dn = fld(name, 'Dns:0'); dn = fld(dn, '0')
        if contains(e.args[1], lambda y: y is dn): ctx.ok(p + '.name.value')
        else: ctx.bad(p + '.name.value', 'the certificate is checked for the name %s' % show(e.args[1])[:200], s.loc)

# ---------------------------------------------------------------- requests
def dir_agg(n): return agg(DIRT, n, [], [])
def grown(v, base, out, depth=0):
    """v as `base` united with further sets: collects them in `out`; None when something else happened to it"""
    if v is base: return True
    if v.op == 'eff' and v.a[0].op == 'call' and v.a[0].a[0].split('::')[-1] == 'union_mut': out.append(v.a[0].a[3]); return grown(v.a[0].a[2], base, out)
    if v.op == 'call' and v.a[0].split('::')[-1] in ('into_set', 'from') and len(v.a) == 3: return grown(v.a[2], base, out)
    if v.op == 'call' and v.a[0].split('::')[-1] == 'union' and len(v.a) == 4:
        for x, y in ((v.a[2], v.a[3]), (v.a[3], v.a[2])):
            o = []
            if grown(x, base, o): out += o + [y]; return True
    return None
def requested(ctx, key, s, r, arg):
    """r is the set of the ranges given by the caller"""
    if r is arg or r.op == 'call' and len(r.a) == 3 and r.a[2] is arg: ctx.ok(key); return
    if not contains(r, lambda x: x is arg): ctx.bad(key, 'the ranges used are %s' % show(r)[:200], s.loc)
    else: ctx.unk(key, 'ranges used: %s' % show(r)[:200])
def in_transcript(ctx, s, r, tr, side):
    if r.op == 'agg' and r.a[1] == 'Range': return c_le(fld(r, 'end'), length(fld(tr, side)))
    return rs_in(ctx, s, r, length(fld(tr, side)))
def ty_fns(ctx, path):
    """functions of the impl blocks of a type"""
    return [f for f in sorted(ctx.db.fns) if re.match(r'tlsn_core::%s(::<.*?>)?::\w+$' % re.escape(path), f)]
def cases(v, k):
    return [(AND(c, k), x) for c, x in alts(v) if AND(c, k) != 0 and AND(AND(c, k), valid2(AND(c, k))) != 0] if v.op == 'choice' else [(k, v)]
def leaves(v, k=1, d=0):
    """alternatives of a value, nested choices resolved"""
    if v.op != 'choice' or d > 6: return [(k, v)]
    return [y for c, x in cases(v, k) for y in leaves(x, c, d + 1)]
def C08(ctx):
    start(ctx)
    # commit requests
    TB = P + 'commit::TranscriptCommitConfigBuilder'
    n_ins = 0
    for f in ty_fns(ctx, TB):
        s = ctx.summ(f)
        if s is None or f.endswith('::new') or not s.args: continue
        nm = f.split('::')[-1]; B0 = s.args[0]
        fin = fld(s.final(B0), 'commits')
        for i, (k, v) in enumerate(leaves(fin)):
            key = 'C08.commit.%s.%d' % (nm, i)
            if v is fld(B0, 'commits'): ctx.ok(key); continue
            new = []; w = v
            while w.op == 'seti' and w is not fld(B0, 'commits'): new.append(w.a[1]); w = w.a[0]
            if w is not fld(B0, 'commits') and not (w.op in ('call', 'seq') and not new):
                if contains(w, lambda x: x is fld(B0, 'commits')) or w.op in ('call', 'eff'): ctx.unk(key, 'requests become %s' % show(v)[:200])
                else: ctx.bad(key, 'earlier requests are lost: %s' % show(v)[:200], s.loc)
                continue
            for it in new:
                n_ins += 1
                d, r, kind = fld(it, '0.0'), fld(it, '0.1'), fld(it, '1')
                for dn, side in (('Sent', 'sent'), ('Received', 'received')):
                    c = AND(k, c_is(d, DIRT, dn)) if d.op != 'agg' else (k if d.a[1] == dn else 0)
                    if c != 0: ctx.require('%s.%s' % (key, side), c, in_transcript(ctx, s, r, fld(B0, 'transcript'), side), 'a %s request lies within the transcript' % side, s.loc)
                arg = [a for a in s.args[1:] if contains(r, lambda x: x is a)]
                if not arg: ctx.bad(key + '.ranges', 'the ranges requested are not the ones given: %s' % show(r)[:200], s.loc)
                else: requested(ctx, key + '.ranges', s, r, arg[0])
        want = {'commit_sent': 'Sent', 'commit_recv': 'Received'}.get(nm)
        if nm in ('commit_sent', 'commit_recv', 'commit', 'commit_with_kind'):
            okc = okcond(s)
            dk = fld(B0, 'default_kind') if nm != 'commit_with_kind' else s.args[3]
            dd = dir_agg(want) if want else s.args[2]
            ls = [v for k, v in leaves(fin, okc) if v.op == 'seti']
            if okc != 0 and len(ls) != len(leaves(fin, okc)): ctx.bad('C08.commit.%s.recorded' % nm, 'accepted, but not recorded', s.loc)
            for v in ls:
                ctx.value('C08.commit.%s.dir' % nm, fld(v.a[1], '0.0'), dd, 'recorded for the direction asked for', s.loc)
                ctx.value('C08.commit.%s.kind' % nm, fld(v.a[1], '1'), dk, 'recorded with the kind asked for', s.loc)
    if not n_ins: ctx.unk('C08.commit', 'no function that records a commitment request was recognised')
    s = ctx.summ(ctx.fn(TB + '::build'))
    if s: ctx.value('C08.commit.build', fld(okval(s), 'commits'), fld(s.args[0], 'commits'), 'the configuration holds the recorded requests', s.loc, care=okcond(s))
    s = ctx.summ(ctx.fn(TB + '::new'))
    if s: ctx.value('C08.commit.new', fld(s.ret, 'transcript'), s.args[0], 'requests are checked against the transcript given', s.loc)
    makers(ctx, 'C08.commit.makers', 'tlsn_core::transcript::commit::TranscriptCommitConfig', r'::(build|clone|deserialize|visit_\w+)$')
    makers(ctx, 'C08.commit.makers.builder', 'tlsn_core::transcript::commit::TranscriptCommitConfigBuilder', r'::new$')
    # what is sent to the peer
    s = ctx.summ(ctx.fn(P + 'commit::TranscriptCommitConfig::to_request'))
    if s:
        X = fld(s.args[0], 'commits'); v = fld(s.ret, 'hash'); e = V.elem(X)
        for i, (sp, w) in enumerate((('0.0', 'direction'), ('0.1', 'ranges'), ('1.Hash:alg', 'algorithm'))):
            if v.op != 'coll': ctx.unk('C08.request.' + w, show(v)[:200]); continue
            ctx.value('C08.request.' + w, fld(v.a[1], str(i)), fld(e, sp), '%s of every request' % w, s.loc)
    # reveal requests of a proving configuration
    PB = 'config::prove::ProveConfigBuilder'
    n_rev = 0
    for f in ty_fns(ctx, PB):
        s = ctx.summ(f)
        if s is None or f.endswith('::new') or not s.args: continue
        nm = f.split('::')[-1]; B0 = s.args[0]; old = fld(B0, 'reveal')
        fin = fld(s.final(B0), 'reveal')
        if fin is old: ctx.ok('C08.reveal.' + nm); continue
        for i, (k, v) in enumerate(leaves(fin)):
            key = 'C08.reveal.%s.%d' % (nm, i)
            if v is old: ctx.ok(key); continue
            for side, ix, dn in (('sent', '0', 'Sent'), ('received', '1', 'Received')):
                x = fld(v, 'Some:0'); x = fld(x, ix); add = []
                bases = [fld(fld(old, 'Some:0'), ix)]
                for kk, y in leaves(x, k):
                    add = []; core = y
                    ok = None
                    for b_ in {t for t in subterms(y) if t.op == 'choice'} | set(bases) | {t for t in subterms(y) if t.op == 'call' and t.a[0].endswith('Default::default')} | {y}:
                        add = []
                        if y is b_ and not (y in bases or (y.op == 'call' and y.a[0].endswith('Default::default'))): continue
                        if grown(y, b_, add):
                            good = all(z is bases[0] or (z.op == 'call' and z.a[0].endswith('Default::default')) for _, z in leaves(b_, kk))
                            if good: ok = True; break
                    if not ok: ctx.unk(key + '.' + side, 'revealed ranges become %s' % show(y)[:200]); continue
                    for r in add:
                        n_rev += 1
                        ctx.require(key + '.' + side, kk, in_transcript(ctx, s, r, fld(B0, 'transcript'), side), 'what is revealed lies within the %s data' % side, s.loc)
                        want = {'reveal_sent': 'Sent', 'reveal_sent_all': 'Sent', 'reveal_recv': 'Received', 'reveal_recv_all': 'Received'}.get(nm)
                        if want and want != dn: ctx.bad(key + '.dir', '%s reveals %s data' % (nm, side), s.loc)
                        if nm == 'reveal': ctx.require(key + '.dir.' + side, kk, c_is(s.args[1], DIRT, dn), '%s data are revealed only when asked for' % side, s.loc)
                        if nm.endswith('_all'):
                            if r.op == 'agg': ctx.value(key + '.all', r, agg('core::ops::range::Range', 'Range', ['start', 'end'], [I(0), length(fld(B0, 'transcript.' + side))]), 'all of the data', s.loc)
                        else: requested(ctx, key + '.ranges', s, r, s.args[2 if nm == 'reveal' or nm == 'reveal_inner' else 1])
    if not n_rev: ctx.unk('C08.reveal', 'no function that records a reveal request was recognised')
    for ty, f in (('ProveConfigBuilder', 'build'), ('ProveConfig', 'to_request')):
        s = ctx.summ(ctx.fn('config::prove::%s::%s' % (ty, f)))
        if s:
            v = okval(s) if f == 'build' else s.ret
            for n in ('server_identity', 'reveal') + (('transcript_commit',) if f == 'build' else ()):
                ctx.value('C08.reveal.%s.%s' % (f, n), fld(v, n), fld(s.args[0], n), 'as configured', s.loc, care=okcond(s) if f == 'build' else 1)
    # what can be opened
    OB = P + 'proof::TranscriptProofBuilder'
    f = ctx.fn(OB + '::new'); s = ctx.summ(f)
    if s:
        X = V.coll(s.args[1]) if s.args[1].op != 'iter' else s.args[1].a[0]
        for side, dn in (('committed_sent', 'Sent'), ('committed_recv', 'Received')):
            v = fld(s.ret, side)
            if v.op != 'fold' or V.coll(v.a[0]) is not V.coll(X):
                (ctx.bad if v.op in ('call', 'agg') else ctx.unk)('C08.open.' + side, 'the committed ranges are %s' % show(v)[:200], *([s.loc] if v.op in ('call', 'agg') else [])); continue
            e = fld(V.elem(X), 'Hash:0')
            for k, y in leaves(v.a[2]):
                add = []
                acc = T('acc')
                if y.op == 'acc': ctx.ok('C08.open.%s.other' % side); continue
                if not grown(y, next((t for t in subterms(y) if t.op == 'acc'), None), add): ctx.unk('C08.open.' + side, 'committed ranges become %s' % show(y)[:200]); continue
                for r in add: ctx.value('C08.open.%s.set' % side, r, fld(e, 'idx'), 'what counts as committed is what the secrets cover', s.loc)
                ctx.require('C08.open.%s.dir' % side, k, c_is(fld(e, 'direction'), DIRT, dn), 'only secrets for the direction count', s.loc)
        for side in ('sent', 'recv'):
            v = fld(s.ret, 'query_idx.' + side)
            if v.op == 'call' and v.a[0].endswith('Default::default'): ctx.ok('C08.open.query.' + side)
            else: ctx.bad('C08.open.query.' + side, 'before any request, the ranges to open are %s' % show(v)[:200], s.loc)
        hs = fld(s.ret, 'hash_secrets')
        for y in subterms(hs):
            if y.op == 'coll' and V.coll(y.a[0]) is V.coll(X): ctx.value('C08.open.secrets', y.a[1], fld(V.elem(X), 'Hash:0'), 'the secrets at hand are the ones given', s.loc)
        ctx.value('C08.open.transcript', fld(s.ret, 'transcript'), s.args[0], 'the transcript is the one given', s.loc)
    n_open = 0
    for f in ty_fns(ctx, OB):
        s = ctx.summ(f)
        if s is None or f.endswith('::new') or f.endswith('::build') or not s.args: continue
        nm = f.split('::')[-1]; B0 = s.args[0]
        fin = s.final(B0)
        for n in ('committed_sent', 'committed_recv', 'hash_secrets', 'transcript'):
            ctx.value('C08.open.%s.keeps.%s' % (nm, n), fld(fin, n), fld(B0, n), 'requests do not change what is committed', s.loc)
        for side, cm, tr, dn in (('sent', 'committed_sent', 'sent', 'Sent'), ('recv', 'committed_recv', 'received', 'Received')):
            old = fld(B0, 'query_idx.' + side)
            for i, (k, v) in enumerate(leaves(fld(fin, 'query_idx.' + side))):
                key = 'C08.open.%s.%s.%d' % (nm, side, i)
                if v is old: ctx.ok(key); continue
                add = []
                if not grown(v, old, add): ctx.unk(key, 'ranges to open become %s' % show(v)[:200]); continue
                for r in add:
                    n_open += 1
                    g = 0
                    for t in Lang(ctx, s).calls('is_subset'):
                        if len(t.a) == 4 and ctx.tdiff(t.a[2], r) is None:
                            for kk, y in leaves(t.a[3]):
                                if ctx.tdiff(y, fld(B0, cm)) is None: g = OR(g, AND(V.cond(t), kk))
                    ctx.require(key + '.committed', k, g, 'only ranges with a commitment can be opened', s.loc)
                    ctx.require(key + '.range', k, in_transcript(ctx, s, r, fld(B0, 'transcript'), tr), 'the ranges lie within the transcript', s.loc)
                    want = {'reveal_sent': 'Sent', 'reveal_recv': 'Received'}.get(nm)
                    if want and want != dn: ctx.bad(key + '.dir', '%s opens %s data' % (nm, tr), s.loc)
                    if nm == 'reveal': ctx.require(key + '.dir', k, c_is(s.args[2], DIRT, dn), '%s data are opened only when asked for' % tr, s.loc)
                    if nm in ('reveal', 'reveal_sent', 'reveal_recv'): requested(ctx, key + '.ranges', s, r, s.args[1])
    if not n_open: ctx.unk('C08.open', 'no function that records a range to open was recognised')
    opened(ctx, ctx.fn(OB + '::build'))
def roots(s, v, seen=()):
    """the values a loop-carried set starts from, following covers (their remainder) and loops"""
    if v in seen: return set()
    seen = seen + (v,)
    if v.op == 'choice': return set().union(*[roots(s, x, seen) for _, x in alts(v)])
    if v.op in ('acc', 'never'): return set()
    if v.op == 'fold': return roots(s, v.a[1], seen) | roots(s, v.a[2], seen)
    if v.op == 'fld' and v.a[0].op == 'call' and v.a[0].a[0].split('::')[-1] == 'cover_by' and str(v.a[-1]) == '1': return roots(s, v.a[0].a[2], seen)
    path, x = [], v
    while x.op == 'fld': path.append(x.a[1:]); x = x.a[0]
    if x.op == 'acc': return set()
    if x.op == 'lv' and x.a[0] in s.engine.loops:
        l = s.engine.loops[x.a[0]]; out = set()
        for d in (l['init'], l['step']):
            if x not in d: continue
            y = d[x]
            for p in reversed(path): y = fld(y, ('%s:%s' % p) if p[0] else p[1])
            out |= roots(s, y, seen)
        return out
    return {v}
def opened(ctx, f):
    """the proof: the bytes of the requested ranges, and openings that cover them"""
    s = ctx.summ(f)
    if not s: return
    B0 = s.args[0]; okc = okcond(s); L = Lang(ctx, s)
    Q = {'sent': fld(B0, 'query_idx.sent'), 'recv': fld(B0, 'query_idx.recv')}
    done = {}
    for v in sorted(B.support(okc)):
        k = ATOMS[v]
        if k[0] == 'b' and k[1].op == 'call' and k[1].a[0].split('::')[-1] == 'is_empty' and AND(okc, NOT(var(v))) == 0:
            r = roots(s, k[1].a[2])
            for n, q in Q.items():
                if r == {q}: done[n] = True
    for n in Q:
        if done.get(n): ctx.ok('C08.build.covered.' + n)
        elif not [1 for v, t in atoms_of(okc, 'call') if t.a[0].split('::')[-1] == 'is_empty']: ctx.bad('C08.build.covered.' + n, 'accepted without checking that the %s ranges are covered' % n, s.loc)
        elif any(roots(s, t.a[2]) for v, t in atoms_of(okc, 'call') if t.a[0].split('::')[-1] == 'is_empty' and not (roots(s, t.a[2]) <= set(Q.values()))): ctx.unk('C08.build.covered.' + n, 'cover check not understood')
        else: ctx.bad('C08.build.covered.' + n, 'accepted although %s ranges may be left without an opening' % n, s.loc)
    evs = ctx.events(s, r'::cover_by$')
    if not evs: ctx.unk('C08.build.cover', 'no search for a cover')
    for e in evs:
        r = roots(s, e.args[0]); n = [k for k, q in Q.items() if r == {q}]
        if len(n) != 1: ctx.unk('C08.build.cover', 'cover of %s' % show(e.args[0])[:100]); continue
        n = n[0]; fl = e.args[1].a[0] if e.args[1].op == 'iter' else e.args[1]
        if fl.op != 'filter':
            (ctx.bad if V.coll(fl) is V.coll(fld(B0, 'hash_secrets')) else lambda k, m, *_: ctx.unk(k, m))('C08.build.cover.' + n, 'covered by %s' % show(fl)[:100], s.loc); continue
        if V.coll(fl.a[0]) is not V.coll(fld(B0, 'hash_secrets')): ctx.unk('C08.build.cover.' + n, 'covered by %s' % show(fl)[:100]); continue
        el = V.elem(fld(B0, 'hash_secrets')); c = V.cond(fl.a[1])
        D = dir_agg('Sent' if n == 'sent' else 'Received')
        ctx.require('C08.build.cover.%s.dir' % n, c, same_dir(fld(el, 'direction'), D), 'openings are for the direction of the data', s.loc)
        kd = fld(V.elem(fld(B0, 'commitment_kinds')), 'Hash:alg')
        ctx.require('C08.build.cover.%s.alg' % n, c, ORS(c_eq(fld(el, 'alg'), kd), same_int(fld(el, 'alg.0'), fld(kd, '0'))), 'openings are of the kind asked for', s.loc)
        if e.args[2].op == 'clo':
            t = ctx.summ(e.args[2].a[0])
            if t: ctx.value('C08.build.cover.%s.idx' % n, t.ret, fld(t.args[1], 'idx'), 'a secret covers its own ranges', t.loc)
    # the data
    okv_ = okval(s)
    for k, v in leaves(okv_, okc):
        init = v
        if v.op == 'lv' and v.a[0] in s.engine.loops: init = s.engine.loops[v.a[0]]['init'].get(v, v)
        if v.op == 'fold': init = v.a[1]
        for d, q, a in (('sent', 'sent', 'sent_authed_idx'), ('received', 'recv', 'received_authed_idx')):
            ctx.value('C08.build.data.' + a, fld(fld(init, 'transcript'), a), Q[q], 'exactly the requested ranges are disclosed', s.loc, care=k)
            X = L.find('RangeSet::iter', [Q[q]])
            y = fld(fld(init, 'transcript'), d)
            ctx.value('C08.build.data.' + d, y, L('scatter($0.transcript.%s, $0.query_idx.%s)' % (d, q)) if 0 else scatter(L, X, blank(length(fld(B0, 'transcript.' + d))), fld(B0, 'transcript.' + d)), 'the bytes disclosed are those of the transcript', s.loc, care=k) if X is not None else ctx.unk('C08.build.data.' + d, show(y)[:200])

# ---------------------------------------------------------------- TLS transcript
CT = 'tlsn_core::transcript::tls::ContentType'
TLSMSG = r'tls_core::msgs::.*::(read|read_version|unwrap_given_kxa|read_bytes)$'
SCHEMES = {'RSA_PKCS1_SHA256': 'RSA_PKCS1_2048_8192_SHA256', 'RSA_PKCS1_SHA384': 'RSA_PKCS1_2048_8192_SHA384', 'RSA_PKCS1_SHA512': 'RSA_PKCS1_2048_8192_SHA512',
           'RSA_PSS_SHA256': 'RSA_PSS_2048_8192_SHA256_LEGACY_KEY', 'RSA_PSS_SHA384': 'RSA_PSS_2048_8192_SHA384_LEGACY_KEY', 'RSA_PSS_SHA512': 'RSA_PSS_2048_8192_SHA512_LEGACY_KEY', 'ED25519': 'ED25519'}
CURVES = {'ECDSA_NISTP256_SHA256': {'SECP_256_R_1': 'ECDSA_NISTP256_SHA256', 'SECP_384_R_1': 'ECDSA_NISTP384_SHA256'}, 'ECDSA_NISTP384_SHA384': {'SECP_256_R_1': 'ECDSA_NISTP256_SHA384', 'SECP_384_R_1': 'ECDSA_NISTP384_SHA384'}}
def sources(s, v, names, seen=None):
    """which of the fields `names` of the receiver a value is computed from, through loops"""
    seen = set() if seen is None else seen; out = set()
    A = s.args[0]
    for x in subterms(v):
        if x in seen: continue
        seen.add(x)
        for n in names:
            if x is fld(A, n): out.add(n)
        if x.op in ('lv', 'lvn') and isinstance(x.a[0], str) and x.a[0] in s.engine.loops:
            l = s.engine.loops[x.a[0]]
            for d in (l['init'], l['step']):
                if x in d: out |= sources(s, d[x], names, seen)
        if x.op in ('lv', 'lvn') and isinstance(x.a[0], Term): out |= sources(s, x.a[0], names, seen)
    return out
def record_parts(ctx, key, r, s, care):
    """an encrypted record is split into explicit nonce, ciphertext and tag"""
    n, c, t = fld(r, 'explicit_nonce'), fld(r, 'ciphertext'), fld(fld(r, 'tag'), 'Some:0')
    bs = sorted({x.a[0] for x in subterms(n) if x.op == 'slice'}, key=lambda x: x.id)
    bs = [b for b in bs if ctx.tdiff(n, V.mkslice(b, I(0), I(8)), care) is None]
    if not bs:
        ctx.bad(key + '.nonce', 'the explicit nonce is %s' % show(n)[:200], s.loc) if n.op in ('slice', 'seq') else ctx.unk(key + '.nonce', show(n)[:200]); return None
    b = bs[0]; L = length(b)
    ctx.value(key + '.ciphertext', c, V.mkslice(b, I(8), V.sub(L, I(16))), 'the ciphertext is what lies between nonce and tag', s.loc, care=care)
    ctx.value(key + '.tag', t, V.mkslice(b, V.sub(L, I(16)), L), 'the tag is the last 16 bytes', s.loc, care=care)
    return b
def increasing(ctx, key, okc, X, s, srcs=None):
    q = None
    for v, t in atoms_of(okc, 'all'):
        ch = t.a[0]
        if ch.op == 'chunks' and len(ch.a) == 3 and ch.a[2].a[0] == 'windows' and ch.a[1] is I(2) and ctx.tdiff(ch.a[0], X, okc) is None and AND(okc, NOT(var(v))) == 0:
            e = V.elem(ch); a, b = fld(proj(e, ('i', I(0))), 'seq'), fld(proj(e, ('i', I(1))), 'seq')
            ctx.require(key, t.a[1], V.c_lt(a, b), 'sequence numbers increase from record to record', s.loc); q = 1
        # pairs of the list with itself shifted by one
        if ch.op == 'zip' and AND(okc, NOT(var(v))) == 0:
            y0, y1 = ch.a[0], ch.a[1]
            if ctx.tdiff(V.coll(y0), X, okc) is None and ctx.tdiff(V.coll(y1), V.mkslice(X, I(1), length(X)), okc) is None:
                e = V.elem(ch); ctx.require(key, t.a[1], V.c_lt(fld(fld(e, '0'), 'seq'), fld(fld(e, '1'), 'seq')), 'sequence numbers increase from record to record', s.loc); q = 1
    if q is None:
        def about(t):
            if srcs is None: return True
            if t.op == 'all':
                b = t.a[0]
                while b.op in ('chunks', 'zip', 'coll', 'filter', 'slice', 'mref', 'ref'): b = b.a[0]
                return any(sources(s, x, srcs) for k, x in leaves(b, okc))
            return bool(sources(s, t, srcs))
        mine = [ATOMS[v][1] for v in B.support(okc) if isinstance(ATOMS[v][1], Term) and about(ATOMS[v][1])]
        if any(contains(t, lambda y: y.op == 'fld' and str(y.a[-1]) == 'seq' and not (y.a[0].op == 'index' and y.a[0].a[1] is I(0))) for t in mine) or any(t.op == 'all' and t.a[0].op in ('chunks', 'zip') for t in mine): ctx.unk(key, 'the check of sequence numbers was not understood')
        else: ctx.bad(key, 'accepted without checking that sequence numbers increase', s.loc)
def focus(c, *xs):
    """c without the atoms that speak of none of xs: those are about other, independent inputs"""
    vs = [v for v in B.support(c) if not (isinstance(ATOMS[v][1], Term) and any(contains(ATOMS[v][1], lambda y, x=x: y is x) for x in xs))]
    return B.exists(c, vs)
def focus_field(c, r, n):
    """c without the atoms that speak only of other fields of the record r than n"""
    def speaks(t):
        if t is r: return True
        if t.op == 'fld' and t.a[0] is r: return str(t.a[-1]) == n
        return any(speaks(x) for x in t.a if isinstance(x, Term))
    return B.exists(c, [v for v in B.support(c) if isinstance(ATOMS[v][1], Term) and contains(ATOMS[v][1], lambda y: y is r) and not speaks(ATOMS[v][1])])
def over(c, X): return {v for v in B.support(c) if isinstance(ATOMS[v][1], Term) and ATOMS[v][1].op == 'all' and ATOMS[v][1].a[0] is X}
def C10(ctx):
    start(ctx)
    f = ctx.fn(P + 'tls::builder::TlsTranscriptBuilder::build'); s = ctx.summ(f, stop=TLSMSG)
    if s:
        A = s.args[0]; okc = okcond(s); v = okval(s)
        rd = [e for e in s.events if e.kind == 'call' and e.path.split('::')[-1] in ('read_version', 'read') and e.args and e.res is not None]
        for d, given, raw, app in (('sent', 'records_sent', 'tls_sent', 'app_sent'), ('recv', 'records_recv', 'tls_recv', 'app_recv')):
            key = 'C10.' + d
            X = fld(v, d); G = fld(fld(A, given), 'Some:0')
            increasing(ctx, key + '.seq', okc, X, s, (given, raw))
            for i, (k, x) in enumerate(leaves(X, okc)):
                r = proj(x, ('i', I(0)))
                if x is G:
                    k = focus(k, G)
                    # a statement about all pairs of records says nothing about a list of one
                    k = B.exists(k, [v for v in B.support(k) if isinstance(ATOMS[v][1], Term) and ATOMS[v][1].op == 'all' and ATOMS[v][1].a[0].op in ('chunks', 'zip')])
                    ctx.require(key + '.given.typ', focus_field(k, r, 'typ'), c_is(fld(r, 'typ'), CT, 'Handshake'), 'the first record is a handshake record', s.loc)
                    ctx.require(key + '.given.first', focus_field(k, r, 'seq'), c_eq(fld(r, 'seq'), I(0)), 'the first record has sequence number 0', s.loc)
                    pt = fld(r, 'plaintext'); p0 = fld(pt, 'Some:0'); g = c_is(pt, V.OPT, 'None')
                    for e in rd:
                        b = e.args[0]
                        if b.op == 'mref' or not contains(b, lambda y: y is p0): continue
                        g = OR(g, AND(is_ok(e.res), c_is(fld(fld(e.res, 'Some:0'), 'payload'), 'tls_core::msgs::handshake::HandshakePayload', 'Finished')))
                        g = OR(g, AND(c_is(e.res, V.OPT, 'Some'), c_is(fld(fld(e.res, 'Some:0'), 'payload'), 'tls_core::msgs::handshake::HandshakePayload', 'Finished')))
                    ctx.require(key + '.given.finished', k, g, 'the first record, if known, is a Finished message', s.loc)
                    continue
                if sources(s, x, (given, raw)) - {raw} or not sources(s, x, (raw,)): ctx.bad(key + '.raw.source', 'the %s records are %s' % (d, show(x)[:200]), s.loc); continue
                ctx.require(key + '.raw.typ', k, c_is(fld(r, 'typ'), CT, 'Handshake'), 'the first record is a handshake record', s.loc)
                ctx.require(key + '.raw.first', k, c_eq(fld(r, 'seq'), I(0)), 'the first record has sequence number 0', s.loc)
                b0 = record_parts(ctx, key + '.raw.finished', r, s, k)
                if b0 is not None and b0.op == 'fld':
                    m = b0
                    while m.op == 'fld': m = m.a[0]
                    if m.op == 'index':
                        off = V.sub(m.a[1], T('idx', m.a[0]))
                        if V.is_int(off) and off.a[0] == 1: ctx.ok(key + '.raw.after')
                        elif V.is_int(off): ctx.bad(key + '.raw.after', 'the Finished record is taken %d records after ChangeCipherSpec' % off.a[0], s.loc)
                        else: ctx.unk(key + '.raw.after', 'Finished record: %s' % show(m)[:100])
                rest = [y.a[0] for y in (x.a if x.op == 'seq' else ()) if y.op == 's' and y.a[0].op == 'coll']
                for c in rest:
                    for kk, e in leaves(c.a[1], k):
                        b = record_parts(ctx, key + '.raw.record', e, s, kk)
                        if b is None: continue
                        pt = fld(e, 'plaintext')
                        if app and contains(pt, lambda y: y is fld(fld(A, app), 'Some:0')):
                            ctx.require(key + '.raw.app', kk, c_is(fld(e, 'typ'), CT, 'ApplicationData'), 'only application data have a known plaintext', s.loc)
                            w = fld(pt, 'Some:0')
                            if w.op == 'slice':
                                ctx.value(key + '.raw.app.len', V.sub(w.a[2], w.a[1]), length(fld(e, 'ciphertext')), 'as many bytes as the ciphertext', s.loc, care=kk)
                                p = w.a[1]
                                if p.op == 'lv' and p.a[0] in s.engine.loops:
                                    l = s.engine.loops[p.a[0]]
                                    ctx.value(key + '.raw.app.start', l['init'].get(p, p), I(0), 'from the start of the data', s.loc)
                                    for k2, st in leaves(l['step'].get(p, p), kk): ctx.value(key + '.raw.app.next', st, w.a[2], 'without gap or overlap', s.loc, care=k2)
                        elif not (pt.op == 'agg' and pt.a[1] == 'None'):
                            ctx.bad(key + '.raw.app', 'plaintext of a record: %s' % show(pt)[:200], s.loc)
            gd = c_is(fld(A, given), V.OPT, 'Some')
            ctx.value(key + '.given', X, G, 'given records are used', s.loc, care=AND(okc, gd))
        ctx.value('C10.time', fld(v, 'time'), fld(fld(A, 'time'), 'Some:0'), 'connection time', s.loc, care=okc)
        ctx.require('C10.time.given', okc, c_is(fld(A, 'time'), V.OPT, 'Some'), 'a connection time is required', s.loc)
        for n in ('version', 'certificate_binding', 'server_signature', 'server_cert_chain'):
            g = AND(okc, c_is(fld(A, n), V.OPT, 'Some'))
            w = fld(fld(A, n), 'Some:0') if n in ('version', 'certificate_binding') else fld(A, n)
            for kk, x in leaves(fld(v, n), g):
                if x is not w and not contains(x, lambda y: y is fld(A, n) or y is w) and sources(s, x, ('tls_sent', 'tls_recv')): ctx.bad('C10.given.' + n, 'a given %s is replaced by %s' % (n, show(x)[:200]), s.loc); continue
                ctx.value('C10.given.' + n, x, w, 'a given %s is used' % n, s.loc, care=kk)
        both = AND(okc, AND(c_is(fld(A, 'tls_sent'), V.OPT, 'Some'), c_is(fld(A, 'tls_recv'), V.OPT, 'Some')))
        RAW = ('tls_sent', 'tls_recv', 'app_sent', 'app_recv')
        for kk, x in leaves(fld(v, 'certificate_binding'), AND(both, c_is(fld(A, 'certificate_binding'), V.OPT, 'None'))):
            b = fld(x, 'V1_2:0')
            for n, src, ms in (('client_random', 'tls_sent', 'ClientHello'), ('server_random', 'tls_recv', 'ServerHello')):
                w = fld(b, n); got = sources(s, w, RAW)
                if got == {src} and contains(w, lambda y: y.op == 'fld' and y.a[1] == ms): ctx.ok('C10.binding.' + n)
                elif got and (got != {src} or w.op == 'fld'): ctx.bad('C10.binding.' + n, '%s comes from %s: %s' % (n, sorted(got), show(w)[-120:]), s.loc)
                else: ctx.unk('C10.binding.' + n, show(w)[:200])
            kx = [e.res for e in s.events if e.kind == 'call' and e.path.endswith('unwrap_given_kxa') and e.res is not None]
            w = fld(b, 'server_ephemeral_key')
            kx = [y for y in kx if contains(w, lambda z: z is y)]
            if kx:
                kx = kx[0]
                if sources(s, kx, RAW) == {'tls_recv'}: ctx.ok('C10.kx.source')
                else: ctx.bad('C10.kx.source', 'key exchange from %s' % sorted(sources(s, kx, RAW)), s.loc)
                ctx.require('C10.kx.group', kk, c_is(fld(kx, 'Some:0.params.curve_params.named_group'), 'tls_core::msgs::enums::NamedGroup', 'secp256r1'), 'only secp256r1 key exchange is accepted', s.loc)
                ctx.value('C10.kx.key', fld(w, 'key'), fld(kx, 'Some:0.params.public.0'), 'the ephemeral key is the server\'s', s.loc, care=kk)
            else: ctx.unk('C10.kx', show(w)[:200])
        none = AND(both, c_is(fld(A, 'server_signature'), V.OPT, 'None'))
        kxs = [e.res for e in s.events if e.kind == 'call' and e.path.endswith('unwrap_given_kxa') and e.res is not None]
        for kx in kxs[:1]:
            dss = fld(kx, 'Some:0.dss'); SS = 'tls_core::msgs::enums::SignatureScheme'
            ctx.require('C10.sig.known', none, discr_is(fld(dss, 'scheme'), SS, *(list(SCHEMES) + list(CURVES))), 'only known signature schemes are accepted', s.loc)
            for kk, x in leaves(fld(v, 'server_signature'), none):
                if x.op != 'agg' or x.a[1] != 'Some':
                    if x is not fld(A, 'server_signature'): ctx.unk('C10.sig', show(x)[:200])
                    continue
                sg = fld(x, 'Some:0')
                ctx.value('C10.sig.bytes', fld(sg, 'sig'), fld(dss, 'sig.0'), 'the signature is the server\'s', s.loc, care=kk)
                for nm in list(SCHEMES) + list(CURVES):
                    k = AND(kk, c_is(fld(dss, 'scheme'), SS, nm))
                    for k2, y in leaves(fld(sg, 'alg'), k):
                        if y.op != 'agg': ctx.unk('C10.sig.alg.' + nm, show(y)[:200]); continue
                        if nm in SCHEMES:
                            if y.a[1] == SCHEMES[nm]: ctx.ok('C10.sig.alg.' + nm)
                            else: ctx.bad('C10.sig.alg.' + nm, '%s is recorded as %s' % (nm, y.a[1]), s.loc)
                            continue
                        def curve(cv): return [var(q) for q in sorted(B.support(k2)) if isinstance(ATOMS[q][1], Term) and ATOMS[q][1].op == 'eq' and contains(ATOMS[q][1], lambda z: z.op in ('const', 'static') and str(z.a[0]).endswith(cv))]
                        for cv, want in CURVES[nm].items():
                            rest = [q for c in CURVES[nm] if c != cv for q in curve(c)]
                            for q in curve(cv):
                                k3 = AND(k2, q)
                                for o in rest: k3 = AND(k3, NOT(o))
                                if k3 == 0: continue
                                if y.a[1] == want: ctx.ok('C10.sig.alg.%s.%s' % (nm, cv))
                                else: ctx.bad('C10.sig.alg.%s.%s' % (nm, cv), '%s with %s is recorded as %s' % (nm, cv, y.a[1]), s.loc)
        hashes(ctx, s, v, both)
    # accessors
    for n, d in (('client_finished', 'sent'), ('server_finished', 'recv')):
        t = ctx.summ(ctx.fn(P + 'tls::TlsTranscript::' + n))
        if t: ctx.value('C10.' + n, t.ret, proj(fld(t.args[0], d), ('i', I(0))), 'the first %s record' % d, t.loc)
    for n, d in (('cf_vd', 'sent'), ('sf_vd', 'recv')):
        t = ctx.summ(ctx.fn(P + 'tls::TlsTranscript::' + n))
        if t:
            p = fld(proj(fld(t.args[0], d), ('i', I(0))), 'plaintext'); p0 = fld(p, 'Some:0')
            some = AND(c_is(p, V.OPT, 'Some'), c_le(I(4), length(p0)))
            ctx.value('C10.' + n, t.ret, V.choice([(some, V.Some(V.mkslice(p0, I(4), length(p0)))), (NOT(some), V.NONE)]), 'the verify data of the Finished message', t.loc)
    f = ctx.fn(P + 'tls::TlsTranscript::to_transcript'); s = ctx.summ(f)
    if s:
        okc = okcond(s); A = s.args[0]; v = okval(s)
        for d, src in (('sent', 'sent'), ('received', 'recv')):
            X = fld(A, src); e = V.elem(X); p = fld(e, 'plaintext'); app = c_is(fld(e, 'typ'), CT, 'ApplicationData')
            ctx.require('C10.data.%s.known' % d, okc, M.mk_all(X, OR(NOT(app), c_is(p, V.OPT, 'Some'))), 'every application data record has a known plaintext', s.loc)
            w = fld(v, d)
            if sources(s, w, ('sent', 'recv')) - {src}: ctx.bad('C10.data.' + d, 'the %s data are taken from the records of the other direction' % d, s.loc); continue
            spec = V.mkseq([T('s', T('flat', T('filter', X, V.Bt(app)), V.mkseq([T('s', fld(p, 'Some:0'))])))])
            ctx.value('C10.data.' + d, w, spec, 'the %s data are the plaintexts of the application data records, in order' % d, s.loc, care=okc)
    f = ctx.fn(P + 'tls::TlsTranscript::sf_hash'); s = ctx.summ(f)
    if s:
        h = fld(fld(s.args[0], 'sf_hash'), 'Some:0'); S, R_, ce, se = [fld(h, n) for n in ('sent_hs_bytes', 'recv_hs_bytes', 'sent_ch_end', 'recv_shd_end')]
        want = [V.mkslice(S, I(0), ce), V.mkslice(R_, I(0), se), V.mkslice(S, ce, length(S)), T('arr', I(20), I(0), I(0), I(12)), s.args[1], V.mkslice(R_, se, length(R_))]
        hashed(ctx, 'C10.sf_hash', s, fld(s.ret, 'Some:0'), want, 1)
        ctx.require('C10.sf_hash.none', V.is_some(s.ret), c_is(fld(s.args[0], 'sf_hash'), V.OPT, 'Some'), 'only when the handshake is known', s.loc)
    for fr in ('core::convert::From',):
        for me, oth in ((CT, 'tls_core::msgs::enums::ContentType'),):
            f = ctx.method(fr, 'transcript::tls::ContentType', 'from'); t = ctx.summ(f)
            if t:
                for n in ('ChangeCipherSpec', 'Alert', 'Handshake', 'ApplicationData', 'Heartbeat'):
                    w = under(t.ret, c_is(t.args[0], oth, n))
                    if w.op == 'agg' and w.a[1] == n: ctx.ok('C10.typ.' + n)
                    elif w.op == 'agg': ctx.bad('C10.typ.' + n, 'record type %s is read as %s' % (n, w.a[1]), t.loc)
                    else: ctx.unk('C10.typ.' + n, show(w)[:100])
def hashed(ctx, key, s, v, want, care):
    ds = digests(v)
    if not ds: ctx.unk(key, 'no digest in %s' % show(v)[:100]); return
    for fam, got, t in ds:
        if fam != 'sha256': ctx.bad(key, 'computes %s' % fam, s.loc); continue
        flat = lambda xs: V.mkseq([T('s', x) for x in xs])
        r = ctx.tdiff(flat(got), flat(want), care)
        if r is None or len(got) == len(want) and all(ctx.tdiff(a, b, care) is None for a, b in zip(got, want)): ctx.ok(key)
        else: ctx.bad(key, 'hashed: (%s) instead of (%s)' % (', '.join(show(x)[-60:] for x in got), ', '.join(show(x)[-60:] for x in want)), s.loc)
def hashes(ctx, s, v, both):
    """session hash and the hash for the client's Finished, over the handshake messages in their order"""
    A = s.args[0]; RAW = ('tls_sent', 'tls_recv')
    h = fld(under(fld(v, 'sf_hash'), both), 'Some:0')
    S, R_, ce, se = [fld(h, n) for n in ('sent_hs_bytes', 'recv_hs_bytes', 'sent_ch_end', 'recv_shd_end')]
    for n, x, src in (('sent', S, 'tls_sent'), ('recv', R_, 'tls_recv'), ('ch_end', ce, 'tls_sent'), ('shd_end', se, 'tls_recv')):
        got = sources(s, x, RAW)
        if got == {src}: ctx.ok('C10.hash.source.' + n)
        elif got: ctx.bad('C10.hash.source.' + n, '%s is computed from %s' % (n, sorted(got)), s.loc)
        else: ctx.unk('C10.hash.source.' + n, show(x)[:200])
    hashed(ctx, 'C10.hash.cf', s, under(fld(v, 'cf_hash'), both), [V.mkslice(S, I(0), ce), V.mkslice(R_, I(0), se), V.mkslice(S, ce, length(S))], both)
    HT = 'tls_core::msgs::enums::HandshakeType'
    sh = under(fld(v, 'session_hash'), both)
    ends = [x for x in subterms(sh) if x.op == 'fld' and str(x.a[-1]) == 'end' and x.a[0].op == 'elem' and sources(s, x, RAW) == {'tls_sent'}]
    if ends: hashed(ctx, 'C10.hash.session', s, sh, [V.mkslice(S, I(0), ce), R_, V.mkslice(S, ce, ends[0])], both)
    else: ctx.bad('C10.hash.session', 'the session hash does not end at the client\'s key exchange', s.loc) if digests(sh) else ctx.unk('C10.hash.session', show(sh)[:200])
    def has(X, n): return NOT(M.mk_all(X, NOT(c_is(fld(V.elem(X), 'typ'), HT, n))))
    if ends:
        Y = ends[0].a[0].a[0]; k = focus(both, Y); ctx.require('C10.hash.ckx', k, has(Y, 'ClientKeyExchange'), 'a ClientKeyExchange is present', s.loc, vocab=over(k, Y))
    if se.op == 'fld' and se.a[0].op == 'elem':
        Y = se.a[0].a[0]; k = focus(both, Y); ctx.require('C10.hash.shd', k, has(Y, 'ServerHelloDone'), 'a ServerHelloDone is present', s.loc, vocab=over(k, Y))
    if ce.op == 'fld' and ce.a[0].op == 'index': ctx.require('C10.hash.ch', both, c_is(fld(ce.a[0], 'typ'), HT, 'ClientHello'), 'the first message is a ClientHello', s.loc)
