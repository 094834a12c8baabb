"""F01: commitments made by the structure of a message.  The parser (`spansy`) is an opaque dependency: what it reports of a part are opaque
values of the parsed node.  The default methods of the committer traits are analysed for an arbitrary implementing type; the methods the
default committers override are analysed instead of the ones they replace."""
from lang import *

HC = 'tlsn_formats::http::commit::HttpCommit'; JC = 'tlsn_formats::json::commit::JsonCommit'
STOP = r'::commit_\w+$|TranscriptCommitConfigBuilder::'
B_ = r'TranscriptCommitConfigBuilder::commit(_with_kind)?$'

def node_is(t, want):
    """when the value is the wanted node"""
    r = 0
    for c, x in alts(t):
        while x.op in ('ref', 'deref'): x = x.a[0]
        if x is want: r = OR(r, c)
    return r
def dir_is(t, want):
    if t is want: return 1
    r = 0
    for c, x in alts(t):
        if x is want: r = OR(r, c)
    return r
class Method:
    def __init__(self, ctx, trait, name, roles):
        self.ctx, self.name = ctx, name
        own = ctx.db.impl_method(trait, trait.rsplit('::', 1)[0] + '::Default' + ('HttpCommitter' if trait is HC else 'JsonCommitter'), name)
        f = own or (trait + '::' + name if trait + '::' + name in ctx.db.fns else ctx.fn(trait + '::' + name))
        self.s = ctx.summ(f, stop=STOP) if f else None
        if self.s:
            for r, a in zip(roles, self.s.args): setattr(self, r, a)
    def __bool__(self): return self.s is not None
    def made(self, rx, at, node, direction, dat, extra=None, loop=None):
        """when a commitment to the node was made (`loop`: to every element of the collection)"""
        r, seen = 0, False
        for e in self.ctx.events(self.s, rx, kinds=('call',)):
            if len(e.args) <= max(at, dat): continue
            n = node_is(e.args[at], node)
            if n == 0: continue
            seen = True
            d = dir_is(e.args[dat], direction)
            ok = ANDS(n, d, is_ok(e.res), extra(e) if extra else 1)
            if loop is None: r = OR(r, AND(e.cond, ok))
            else: r = OR(r, V.mk_all(loop, ok))
        return r, seen
    def need(self, key, rx, at, node, direction, dat, what, when=1, **kw):
        key = '%s.%s' % (self.name, key)
        if node is None: self.ctx.unk(key, what + ': not recognised'); return
        c, seen = self.made(rx, at, node, direction, dat, **kw)
        g = AND(okcond(self.s), when)
        lost = [e for e in self.s.events if e.kind in ('call', 'callv') and e.path in ('', '?')]
        if not seen and lost: self.ctx.unk(key, '%s: unresolved call' % what); return
        # the outcomes of the commitments made are free
        done = {e.res for e in self.ctx.events(self.s, STOP, kinds=('call',))}
        out = [k for k in B.support(g) if any(x in done for x in subterms(V.ATOMS[k][1]))]
        self.ctx.require(key, g, c, 'reported as committed, but ' + what, self.s.loc, strict=not seen, vocab=out)
    def direct(self, key, node, what, when=1): self.need(key, B_, 1, node, self.dir, 2, what, when)

def api(ctx, s, rx, arg):
    """the value the parser reports for a node (a call made by the method, on that node)"""
    for e in ctx.events(s, rx, kinds=('call',)):
        if e.args and e.args[0] is arg: return e.res
    return None

def F01(ctx):
    """format-aware commitments cover the message"""
    nonempty = lambda x: NOT(V.c_eq(V.length(x), I(0)))
    some = lambda x: c_is(x, V.OPT, 'Some')
    for kind in ('request', 'response'):
        K = kind.capitalize()
        m = Method(ctx, HC, 'commit_' + kind, ('me', 'b', 'dir', 'msg'))
        if m:
            m.direct('whole', m.msg, 'not to the whole ' + kind)
            H = fld(m.msg, 'headers'); body = fld(m.msg, 'body')
            has = OR(nonempty(H), some(body))
            wd = T('call', 'spansy::http::%s::without_data' % K, m.msg)
            m.direct('structure', api(ctx, m.s, r'::%s::without_data$' % K, m.msg) or wd, 'not to its structure without the data', when=has)
            if kind == 'request':
                m.need('target', r'::commit_target$', 4, fld(m.msg, 'request.target'), m.dir, 2, 'not to its target')
            m.need('headers', r'::commit_%s_header$' % kind, 4, V.elem(H), m.dir, 2, 'not to each of its headers', extra=lambda e: node_is(e.args[3], m.msg), loop=H)
            m.need('body', r'::commit_%s_body$' % kind, 4, fld(body, 'Some:0'), m.dir, 2, 'not to its body', when=some(body), extra=lambda e: node_is(e.args[3], m.msg))
        m = Method(ctx, HC, 'commit_%s_header' % kind, ('me', 'b', 'dir', 'msg', 'node'))
        if m:
            m.direct('whole', m.node, 'not to the whole header')
            empty = [e.res for e in ctx.events(m.s, r'is_empty$', kinds=('call',)) if fld(m.node, 'value') in subterms(e.args[0])]
            when = NOT(ORS(*[V.bvar(x) for x in empty])) if empty else 1
            m.direct('structure', api(ctx, m.s, r'::Header::without_value$', m.node) or T('call', 'spansy::http::Header::without_value', m.node), 'not to the header without its value', when=when)
        m = Method(ctx, HC, 'commit_%s_body' % kind, ('me', 'b', 'dir', 'msg', 'node'))
        if m:
            ct = fld(m.node, 'content')
            js = c_is(ct, 'spansy::http::BodyContent', 'Json')
            m.need('json', r'::commit_value$', 2, fld(ct, 'Json:0.root'), m.dir, 3, 'not to the JSON value of its body', when=js)
            m.direct('other', m.node, 'not to its body', when=NOT(js))
    m = Method(ctx, HC, 'commit_target', ('me', 'b', 'dir', 'msg', 'node'))
    if m: m.direct('whole', m.node, 'not to the target')
    m = Method(ctx, HC, 'commit_transcript', ('me', 'b', 't'))
    if m:
        for kind, d in (('request', 'Sent'), ('response', 'Received')):
            X = fld(m.t, kind + 's')
            m.need(kind, r'::commit_%s$' % kind, 3, V.elem(X), agg('tlsn_core::transcript::Direction', d, [], []), 2, 'not to each %s in the direction it was sent' % kind, loop=X)
    # JSON
    m = Method(ctx, JC, 'commit_value', ('me', 'b', 'node', 'dir'))
    if m:
        for v in ('Object', 'Array', 'String', 'Number', 'Bool', 'Null'):
            m.need(v.lower(), r'::commit_%s$' % v.lower(), 2, fld(m.node, v + ':0'), m.dir, 3, 'not to the value', when=c_is(m.node, 'spansy::json::JsonValue', v))
    def jmethod(name): return Method(ctx, JC, 'commit_' + name, ('me', 'b', 'node', 'dir'))
    def japi(m, ty, what): return api(ctx, m.s, r'::%s::%s$' % (ty, what), m.node) or T('call', 'spansy::json::%s::%s' % (ty, what), m.node)
    m = jmethod('object')
    if m:
        m.direct('structure', japi(m, 'Object', 'without_pairs'), 'not to the object without its pairs')
        X = fld(m.node, 'elems')
        m.need('pairs', r'::commit_key_value$', 2, V.elem(X), m.dir, 3, 'not to each of its pairs', loop=X)
    m = jmethod('key_value')
    if m:
        m.direct('structure', japi(m, 'KeyValue', 'without_value'), 'not to the pair without its value')
        m.need('value', r'::commit_value$', 2, fld(m.node, 'value'), m.dir, 3, 'not to its value')
    m = jmethod('array')
    if m:
        m.direct('whole', m.node, 'not to the whole array')
        m.direct('structure', japi(m, 'Array', 'without_values'), 'not to the array without its values', when=nonempty(fld(m.node, 'elems')))
    for n in ('string', 'number', 'bool', 'null'):
        m = jmethod(n)
        if m:
            empty = [e.res for e in ctx.events(m.s, r'is_empty$', kinds=('call',)) if m.node in subterms(e.args[0])] if n == 'string' else []
            m.direct('whole', m.node, 'not to the value', when=NOT(ORS(*[V.bvar(x) for x in empty])) if empty else 1)
    f = ctx.fn('tlsn_formats::http::HttpTranscript::parse')
    if f:
        s = ctx.summ(f); okc = okcond(s); v = okval(s); tr = s.args[0]
        for field, ty, side in (('requests', 'Requests', 'sent'), ('responses', 'Responses', 'received')):
            es = ctx.events(s, r'::%s::new(_from_slice)?$' % ty, kinds=('call',))
            if not es: ctx.unk('parse.' + field, 'parser not recognised'); continue
            g = ctx.fn('tlsn_core::transcript::Transcript::' + side)
            if not g: continue
            want = ctx.summ(g, args=[tr]).ret
            for e in es: ctx.value('parse.%s.from' % field, e.args[0], want, 'the %s are parsed from the bytes that were %s' % (field, side), s.loc, care=e.cond)
            x = fld(v, field)
            if es[0].res in subterms(x): ctx.ok('parse.' + field)
            elif any(o.res in subterms(x) for o in ctx.events(s, r'::Re(quests|sponses)::new', kinds=('call',))): ctx.bad('parse.' + field, 'the %s are not those parsed from the bytes that were %s: %s' % (field, side, show(x)[:200]), s.loc)
            else: ctx.unk('parse.' + field, 'the parsed messages were not recognised: ' + show(x)[:200])
