"""Semantics of the standard-library functions the analysed code uses, as term rewritings."""
import re
import mirval as V
from bdd import *
import bdd as B

MODELS = {}
TRAIT_MODELS = {}
def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d
T = None
def _late():
    pass

O = 'core::option::Option::'
R = 'core::result::Result::'
IT = 'core::iter::traits::iterator::Iterator::'

def M_ident(e, fr, a, st, reach, ln, ta): return a[0]
def M_val(e, fr, a, st, reach, ln, ta): return e.val(st, a[0])
for n in ['core::clone::Clone::clone', 'core::borrow::Borrow::borrow', 'core::convert::AsRef::as_ref',
          'alloc::borrow::ToOwned::to_owned', 'alloc::slice::<impl [T]>::to_vec', 'alloc::vec::Vec::as_slice',
          'core::str::<impl str>::as_bytes', 'alloc::string::String::as_str', 'alloc::string::String::into_bytes', 'alloc::string::String::as_bytes',
          'core::option::Option::cloned', 'core::option::Option::copied', 'core::option::Option::as_ref', 'core::option::Option::as_deref',
          'core::result::Result::as_ref', 'core::result::Result::cloned', 'core::result::Result::copied',
          'alloc::slice::<impl [T]>::into_vec', 'alloc::vec::Vec::into_boxed_slice', 'alloc::borrow::Cow::into_owned',
          'core::hint::must_use', 'core::array::<impl [T; N]>::as_slice', 'core::slice::<impl [T]>::as_ref',
          'core::str::<impl str>::to_string', 'alloc::str::<impl str>::to_owned', 'alloc::string::ToString::to_string_id',
          'core::slice::<impl [T]>::to_owned', 'alloc::boxed::box_assume_init_into_vec_unsafe', 'core::pin::Pin::get_ref',
          'alloc::boxed::Box::into_inner', 'core::slice::<impl [T]>::as_slice', 'core::array::<impl [T; N]>::as_ref', 'core::ops::deref::Deref::deref_val', 'zeroize::Zeroizing::new',
          'rustls_pki_types::server_name::DnsName::to_owned', 'rustls_pki_types::server_name::ServerName::to_owned', 'rustls_pki_types::CertificateDer::into_owned']:
    MODELS[n] = M_val
for n in ['core::ops::deref::DerefMut::deref_mut', 'core::convert::AsMut::as_mut', 'core::borrow::BorrowMut::borrow_mut',
          'alloc::vec::Vec::as_mut_slice', 'core::array::<impl [T; N]>::as_mut_slice', 'core::pin::Pin::new_unchecked', 'core::pin::Pin::new', 'core::pin::Pin::as_mut', 'core::pin::Pin::get_mut',
          'alloc::boxed::Box::new', 'alloc::boxed::Box::pin', 'core::future::into_future::IntoFuture::into_future', 'alloc::sync::Arc::new', 'alloc::rc::Rc::new',
          'core::mem::ManuallyDrop::new', 'core::future::future::FutureExt::boxed']:
    MODELS[n] = M_ident
@model('core::ops::deref::Deref::deref')
def m_deref(e, fr, a, st, reach, ln, ta): return e.val(st, a[0])
@model('core::slice::<impl [T]>::iter', IT + 'by_ref', IT + 'cloned', IT + 'copied', IT + 'fuse', IT + 'peekable')
def m_iter(e, fr, a, st, reach, ln, ta):
    v = e.val(st, a[0])
    if a[0].op == 'mref' and v.op != 'iter' and v.op in ('lv', 'lvn', 'call', 'eff'): return a[0]
    return mkiter(v)
@model('core::iter::traits::collect::IntoIterator::into_iter')
def m_into_iter(e, fr, a, st, reach, ln, ta):
    if a[0].op == 'mref':
        v = e.val(st, a[0])
        if v.op in ('iter', 'lv', 'lvn'): return a[0]     # `for x in &mut iter`
        return mkiter(v)
    if ta and ta[0][0] == 'adt' and ta[0][1] == V.OPT:
        c = V.is_some(a[0])
        return V.T('iter', V.choice([(c, V.T('arr', V.somev(a[0]))), (NOT(c), V.T('arr'))]))
    return mkiter(a[0])
def mkiter(v):
    if v.op == 'iter': return v
    return V.T('iter', v)
def coll(t):
    while t.op == 'iter': t = t.a[0]
    if t.op == 'agg':
        r = rng(t)
        if r and r[0] is not None and r[1] is not None:
            # the indices of a collection
            if not r[2] and r[0] is V.I(0) and r[1].op == 'len': return V.T('map', r[1].a[0], V.T('idx', r[1].a[0]))
            return V.T('range', r[0], V.add(r[1], V.I(1)) if r[2] else r[1])
    return t

# ---------------- Option / Result combinators
def branches(e, alts):
    """alts: (cond, value, state)"""
    alts = [x for x in alts if x[0] != 0]
    if not alts: return [(0, V.T('never'), {})]
    tot = ORS(*[x[0] for x in alts])
    if len(alts) == 1: return [(tot, alts[0][1], alts[0][2])]
    return [(tot, V.choice([(B.constrain(c, tot), v) for c, v, _ in alts]), e.merge([(c, s) for c, _, s in alts], tot, None))]
def app(e, fr, f, args, st, reach, ln, c=1):
    """apply under condition c -> list (cond, val, state)"""
    if c == 0: return []
    return [(AND(c, cc), v, s) for cc, v, s in e.apply(fr, e.val(st, f), args, st, AND(reach, c), ln)]
OPTP = 'core::option::Option::'
def isopt(ta): return bool(ta) and ta[0][0] == 'adt' and ta[0][1] == V.OPT

def opt_val(e, st, x):
    # Option<&mut T> behind a reference etc.
    return e.val(st, x)

@model('core::ops::try_trait::Try::branch')
def m_branch(e, fr, a, st, reach, ln, ta):
    x = a[0]
    CF = 'core::ops::control_flow::ControlFlow'
    if isopt(ta):
        c = V.is_some(x)
        return V.choice([(c, V.agg(CF, 'Continue', ['0'], [V.somev(x)]) if c else V.UNIT), (NOT(c), V.agg(CF, 'Break', ['0'], [V.NONE]))])
    if ta and ta[0][0] == 'adt' and ta[0][1] == V.RES:
        c = V.is_ok(x)
        return V.choice([(c, V.agg(CF, 'Continue', ['0'], [V.okv(x)]) if c else V.UNIT), (NOT(c), V.agg(CF, 'Break', ['0'], [V.Err(V.errv(x)) if NOT(c) else V.UNIT]))])
    if ta and ta[0][0] == 'adt' and ta[0][1] == 'core::task::poll::Poll':
        c = V.c_is(x, 'core::task::poll::Poll', 'Pending')
        return None
    return None
@model('core::ops::try_trait::FromResidual::from_residual')
def m_from_res(e, fr, a, st, reach, ln, ta):
    x = a[0]
    if isopt(ta): return V.NONE
    if ta and ta[0][0] == 'adt' and ta[0][1] == V.RES:
        f = ta[0][2][1]
        src = ta[1][2][1] if len(ta) > 1 and ta[1][0] == 'adt' and len(ta[1][2]) > 1 else None
        err = V.errv(x)
        if src == f or src is None: return V.Err(err)
        outs = e.call_path(fr, {'path': 'core::convert::From::from', 'args': [f, src], 'trait': 'core::convert::From'}, [err], st, reach, ln)
        return [(c, V.Err(v), s) for c, v, s in outs]
    return None
@model('core::ops::try_trait::Try::from_output')
def m_from_out(e, fr, a, st, reach, ln, ta): return V.Some(a[0]) if isopt(ta) else V.Ok(a[0])

def _o(name):
    return model(O + name)
def _r(name):
    return model(R + name)
@_o('is_some')
def _(e, fr, a, st, reach, ln, ta): return V.Bt(V.is_some(e.val(st, a[0])))
@_o('is_none')
def _(e, fr, a, st, reach, ln, ta): return V.Bt(NOT(V.is_some(e.val(st, a[0]))))
@_r('is_ok')
def _(e, fr, a, st, reach, ln, ta): return V.Bt(V.is_ok(e.val(st, a[0])))
@_r('is_err')
def _(e, fr, a, st, reach, ln, ta): return V.Bt(NOT(V.is_ok(e.val(st, a[0]))))
@_o('is_some_and')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_some(a[0])
    return branches(e, app(e, fr, a[1], [V.somev(a[0])], st, reach, ln, c) + [(NOT(c), V.I(0), st)])
@_o('is_none_or')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_some(a[0])
    return branches(e, app(e, fr, a[1], [V.somev(a[0])], st, reach, ln, c) + [(NOT(c), V.I(1), st)])
@_r('is_ok_and')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_ok(a[0])
    return branches(e, app(e, fr, a[1], [V.okv(a[0])], st, reach, ln, c) + [(NOT(c), V.I(0), st)])
@_r('is_err_and')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_ok(a[0])
    return branches(e, app(e, fr, a[1], [V.errv(a[0])], st, reach, ln, NOT(c)) + [(c, V.I(0), st)])
@_o('map')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_some(a[0])
    return branches(e, [(x, V.Some(v), s) for x, v, s in app(e, fr, a[1], [V.somev(a[0])], st, reach, ln, c)] + [(NOT(c), V.NONE, st)])
@_o('inspect')
def _(e, fr, a, st, reach, ln, ta): return a[0]
@_r('inspect_err')
def _(e, fr, a, st, reach, ln, ta): return a[0]
@_o('and_then')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_some(a[0])
    return branches(e, app(e, fr, a[1], [V.somev(a[0])], st, reach, ln, c) + [(NOT(c), V.NONE, st)])
@_o('and')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_some(a[0])
    return V.choice([(c, a[1]), (NOT(c), V.NONE)])
@_o('or')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_some(a[0])
    return V.choice([(c, a[0]), (NOT(c), a[1])])
@_o('or_else')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_some(a[0])
    return branches(e, app(e, fr, a[1], [], st, reach, ln, NOT(c)) + [(c, a[0], st)])
@_o('xor')
def _(e, fr, a, st, reach, ln, ta): return None
@_o('filter')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_some(a[0])
    outs = []
    for x, v, s in app(e, fr, a[1], [V.somev(a[0])], st, reach, ln, c):
        p = V.cond(v)
        outs += [(AND(x, p), V.Some(V.somev(a[0])) if a[0].op != 'agg' else a[0], s), (AND(x, NOT(p)), V.NONE, s)]
    return branches(e, outs + [(NOT(c), V.NONE, st)])
@_o('transpose')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_some(a[0])
    outs = [(NOT(c), V.Ok(V.NONE))] if NOT(c) else []
    if c:
        r = V.somev(a[0]); k = V.is_ok(r)
        if AND(c, k): outs.append((AND(c, k), V.Ok(V.Some(V.okv(r)))))
        if AND(c, NOT(k)): outs.append((AND(c, NOT(k)), V.Err(V.errv(r))))
    return V.choice(outs)
@_o('ok_or')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_some(a[0])
    return V.choice([(c, V.Ok(V.somev(a[0])) if c else V.UNIT), (NOT(c), V.Err(a[1]))])
@_o('ok_or_else')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_some(a[0])
    return branches(e, [(x, V.Err(v), s) for x, v, s in app(e, fr, a[1], [], st, reach, ln, NOT(c))] + ([(c, V.Ok(V.somev(a[0])), st)] if c else []))
@_o('map_or')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_some(a[0])
    return branches(e, app(e, fr, a[2], [V.somev(a[0])], st, reach, ln, c) + [(NOT(c), a[1], st)])
@_o('map_or_else')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_some(a[0])
    return branches(e, app(e, fr, a[2], [V.somev(a[0])], st, reach, ln, c) + app(e, fr, a[1], [], st, reach, ln, NOT(c)))
@_o('unwrap_or')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_some(a[0])
    return V.choice([(c, V.somev(a[0]) if c else V.UNIT), (NOT(c), a[1])])
@_o('unwrap_or_else')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_some(a[0])
    return branches(e, app(e, fr, a[1], [], st, reach, ln, NOT(c)) + ([(c, V.somev(a[0]), st)] if c else []))
@_o('unwrap_or_default')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_some(a[0])
    return V.choice([(c, V.somev(a[0]) if c else V.UNIT), (NOT(c), default_of(ta, e, fr, a, st, reach, ln))])
def default_of(ta, e=None, fr=None, a=None, st=None, reach=1, ln=0):
    t = ta[0] if ta else None
    if t is not None:
        if t[0] == 'adt' and t[1] in ('alloc::vec::Vec', 'alloc::string::String'): return V.T('seq')
        if t[0] == 'adt' and t[1] == V.OPT: return V.NONE
        if t[0] == 'prim' and re.fullmatch(r'[ui](8|16|32|64|128|size)', t[1]): return V.I(0)
        if t[0] == 'prim' and t[1] == 'bool': return V.Bt(0)
        if t[0] == 'tuple': return V.T('tup', *[default_of([x], e, fr, a, st, reach, ln) for x in t[1]])
        if e is not None and t[0] == 'adt':
            rs = e.call_path(fr, {'path': 'core::default::Default::default', 'args': [t], 'trait': 'core::default::Default'}, [], st, reach, ln)
            if len(rs) == 1: return rs[0][1]
    return V.T('default')
@model('core::default::Default::default')
def _(e, fr, a, st, reach, ln, ta):
    t = ta[0] if ta else None
    if t is not None and t[0] == 'prim': return default_of([t])
    return None
def unwrap(e, fr, x, c, v, ln, reach, what):
    bad = AND(reach, NOT(c))
    if bad != 0: e.event('panic', 'unwrap:' + what, [x], bad, None, fr, ln)
    return v
@model(O + 'unwrap', O + 'expect', O + 'unwrap_unchecked')
def _(e, fr, a, st, reach, ln, ta):
    x = e.val(st, a[0]); return unwrap(e, fr, x, V.is_some(x), V.somev(x), ln, reach, 'option')
@model(R + 'unwrap', R + 'expect')
def _(e, fr, a, st, reach, ln, ta):
    x = e.val(st, a[0]); return unwrap(e, fr, x, V.is_ok(x), V.okv(x), ln, reach, 'result')
@model(R + 'unwrap_err', R + 'expect_err')
def _(e, fr, a, st, reach, ln, ta):
    x = e.val(st, a[0]); return unwrap(e, fr, x, NOT(V.is_ok(x)), V.errv(x), ln, reach, 'result')
@_r('map')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_ok(a[0])
    return branches(e, [(x, V.Ok(v), s) for x, v, s in app(e, fr, a[1], [V.okv(a[0])], st, reach, ln, c)] + ([(NOT(c), V.Err(V.errv(a[0])), st)] if NOT(c) else []))
@_r('transpose')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_ok(a[0])
    outs = [(NOT(c), V.Some(V.Err(V.errv(a[0]))))] if NOT(c) else []
    if c:
        o = V.okv(a[0]); k = V.is_some(o)
        if AND(c, k): outs.append((AND(c, k), V.Some(V.Ok(V.somev(o)))))
        if AND(c, NOT(k)): outs.append((AND(c, NOT(k)), V.NONE))
    return V.choice(outs)
@_r('map_err')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_ok(a[0])
    return branches(e, [(x, V.Err(v), s) for x, v, s in app(e, fr, a[1], [V.errv(a[0])], st, reach, ln, NOT(c))] + ([(c, V.Ok(V.okv(a[0])), st)] if c else []))
@_r('and_then')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_ok(a[0])
    return branches(e, app(e, fr, a[1], [V.okv(a[0])], st, reach, ln, c) + ([(NOT(c), V.Err(V.errv(a[0])), st)] if NOT(c) else []))
@_r('and')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_ok(a[0])
    return V.choice([(c, a[1]), (NOT(c), V.Err(V.errv(a[0])) if NOT(c) else V.UNIT)])
@_r('or_else')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_ok(a[0])
    return branches(e, app(e, fr, a[1], [V.errv(a[0])], st, reach, ln, NOT(c)) + ([(c, V.Ok(V.okv(a[0])), st)] if c else []))
@_r('ok')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_ok(a[0])
    return V.choice([(c, V.Some(V.okv(a[0])) if c else V.UNIT), (NOT(c), V.NONE)])
@_r('err')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_ok(a[0])
    return V.choice([(NOT(c), V.Some(V.errv(a[0])) if NOT(c) else V.UNIT), (c, V.NONE)])
@_r('unwrap_or')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_ok(a[0])
    return V.choice([(c, V.okv(a[0]) if c else V.UNIT), (NOT(c), a[1])])
@_r('unwrap_or_else')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_ok(a[0])
    return branches(e, app(e, fr, a[1], [V.errv(a[0])], st, reach, ln, NOT(c)) + ([(c, V.okv(a[0]), st)] if c else []))
@_r('unwrap_or_default')
def _(e, fr, a, st, reach, ln, ta):
    c = V.is_ok(a[0])
    return V.choice([(c, V.okv(a[0]) if c else V.UNIT), (NOT(c), default_of(ta, e, fr, a, st, reach, ln))])
@model(O + 'take', 'core::mem::take')
def _(e, fr, a, st, reach, ln, ta):
    if a[0].op != 'mref': return None
    v = e.val(st, a[0]); s = dict(st)
    opt = fr_is_opt(ta)
    e.write(s, V.MREF[a[0]], V.NONE if opt else (V.T('seq') if ta and ta[0][0] == 'adt' and ta[0][1].endswith('vec::Vec') else V.T('default')))
    return (1, v, s)
def fr_is_opt(ta): return True if not ta else (ta[0][0] == 'adt' and ta[0][1] == V.OPT) or ta[0][0] != 'adt'
MODELS[O + 'take'] = lambda e, fr, a, st, reach, ln, ta: _take(e, a, st, V.NONE)
def _take(e, a, st, new):
    if a[0].op != 'mref': return None
    v = e.val(st, a[0]); s = dict(st)
    e.write(s, V.MREF[a[0]], new)
    return (1, v, s)
@model('core::mem::replace', O + 'replace')
def _(e, fr, a, st, reach, ln, ta):
    if a[0].op != 'mref': return None
    v = e.val(st, a[0]); s = dict(st)
    e.write(s, V.MREF[a[0]], a[1])
    return (1, v, s)
@model(O + 'insert')
def _(e, fr, a, st, reach, ln, ta):
    if a[0].op != 'mref': return None
    s = dict(st); r, p = V.MREF[a[0]]
    e.write(s, (r, p), V.Some(a[1]))
    return (1, V.mref((r, p + (('f', 'Some', '0'),))), s)
@model(O + 'as_mut', O + 'as_deref_mut')
def _(e, fr, a, st, reach, ln, ta):
    if a[0].op != 'mref': return None
    v = e.val(st, a[0]); c = V.is_some(v)
    r, p = V.MREF[a[0]]
    return V.choice([(c, V.Some(V.mref((r, p + (('f', 'Some', '0'),))))), (NOT(c), V.NONE)])
@model(O + 'get_or_insert_with')
def _(e, fr, a, st, reach, ln, ta): return goi(e, fr, a, st, reach, ln, ta, lambda c: app(e, fr, a[1], [], st, reach, ln, c))
@model(O + 'get_or_insert')
def _(e, fr, a, st, reach, ln, ta): return goi(e, fr, a, st, reach, ln, ta, lambda c: [(c, a[1], st)])
@model(O + 'get_or_insert_default')
def _(e, fr, a, st, reach, ln, ta): return goi(e, fr, a, st, reach, ln, ta, lambda c: [(c, default_of(ta, e, fr, a, st, reach, ln), st)])
def goi(e, fr, a, st, reach, ln, ta, mk):
    if a[0].op != 'mref': return None
    v = e.val(st, a[0]); c = V.is_some(v); r, p = V.MREF[a[0]]
    out = branches(e, (mk(NOT(c)) if c != 1 else []) + [(c, V.somev(v) if c else V.UNIT, st)])
    if len(out) != 1: return None
    x, u, s = out[0]; s = dict(s)
    e.write(s, (r, p), V.Some(u))
    return [(x, V.mref((r, p + (('f', 'Some', '0'),))), s)]
@model('core::bool::<impl bool>::then_some')
def _(e, fr, a, st, reach, ln, ta):
    c = V.cond(a[0]); return V.choice([(c, V.Some(a[1])), (NOT(c), V.NONE)])
@model('core::bool::<impl bool>::then')
def _(e, fr, a, st, reach, ln, ta):
    c = V.cond(a[0])
    return branches(e, [(x, V.Some(v), s) for x, v, s in app(e, fr, a[1], [], st, reach, ln, c)] + [(NOT(c), V.NONE, st)])

# ---------------- comparisons
@model('core::cmp::PartialEq::eq')
def m_eq(e, fr, a, st, reach, ln, ta):
    if ta and ta[0][0] == 'adt':
        r = e.find_impl('core::cmp::PartialEq', ta)
        if r and not r[0]['derived']:
            return None
    elif ta and ta[0][0] == 'ref':
        # comparison of references: the one of what they refer to
        us = []
        for u in ta[:2]:
            while u[0] == 'ref': u = u[2]
            us.append(u)
        r = e.find_impl('core::cmp::PartialEq', us) if us[0][0] == 'adt' else None
        if r:
            return e.call_path(fr, {'path': 'core::cmp::PartialEq::eq', 'args': us, 'trait': 'core::cmp::PartialEq'}, [e.val(st, a[0]), e.val(st, a[1])], st, reach, ln)
    x, y = e.val(st, a[0]), e.val(st, a[1])
    for v, t in ((x, 0), (y, 1)):
        if t < len(ta):
            u = ta[t]
            while u[0] == 'ref': u = u[2]
            if u[0] == 'prim' and u[1] not in ('str', 'f32', 'f64'):
                e.regwidth(v, u[1])
                if t == 1: return e.binop('Eq', x, y, u)
            elif u[0] == 'adt' and e.db.adts.get(u[1], {}).get('kind') == 'enum': return V.Bt(enum_eq(e, x, y, u))
    return V.Bt(V.c_eq(x, y))
def enum_eq(e, x, y, u):
    if x is y: return 1
    for p, q in ((x, y), (y, x)):
        if all(t.op == 'agg' for _, t in V.alts(p)) : return V.c_eq(p, q)
    a = e.db.adts[u[1]]
    if all(not v[2] for v in a['variants']):
        d1, d2 = e.discr(x, ['adt', u[1]]), e.discr(y, ['adt', u[1]])
        return V.c_eq(x, y)
    return V.c_eq(x, y)
@model('core::cmp::PartialEq::ne')
def m_ne(e, fr, a, st, reach, ln, ta):
    r = m_eq(e, fr, a, st, reach, ln, ta)
    if r is None:
        rr = e.call_path(fr, {'path': 'core::cmp::PartialEq::eq', 'args': list(ta), 'trait': 'core::cmp::PartialEq'}, a, st, reach, ln)
        return [(c, V.Bt(NOT(V.cond(v))), s) for c, v, s in rr]
    if isinstance(r, list): return [(c, V.Bt(NOT(V.cond(v))), s) for c, v, s in r]
    return V.Bt(NOT(V.cond(r)))
TIMES = ('std::time::SystemTime', 'web_time::SystemTime')
def cmpm(f):
    def m(e, fr, a, st, reach, ln, ta):
        u = ta[0] if ta else ('x',)
        while u[0] == 'ref': u = u[2]
        if u[0] == 'adt' and u[1] in TIMES:
            # x <= y exactly if the time since x can be taken at y
            x, y = e.val(st, a[0]), e.val(st, a[1])
            le = lambda p, q: V.is_ok(V.T('call', u[1] + '::duration_since', '', q, p))
            return V.Bt(f(x, y, le))
        if u[0] != 'prim': 
            return None
        x, y = e.val(st, a[0]), e.val(st, a[1])
        e.regwidth(x, u[1]); e.regwidth(y, u[1])
        return V.Bt(f(x, y))
    return m
MODELS['core::cmp::PartialOrd::lt'] = cmpm(lambda x, y, le=None: NOT(le(y, x)) if le else V.c_lt(x, y))
MODELS['core::cmp::PartialOrd::le'] = cmpm(lambda x, y, le=None: le(x, y) if le else V.c_le(x, y))
MODELS['core::cmp::PartialOrd::gt'] = cmpm(lambda x, y, le=None: NOT(le(x, y)) if le else V.c_lt(y, x))
MODELS['core::cmp::PartialOrd::ge'] = cmpm(lambda x, y, le=None: le(y, x) if le else V.c_le(y, x))
@model('core::cmp::Ord::min', 'core::cmp::min')
def _(e, fr, a, st, reach, ln, ta):
    c = V.c_le(a[0], a[1]); return V.choice([(c, a[0]), (NOT(c), a[1])])
@model('core::cmp::Ord::max', 'core::cmp::max')
def _(e, fr, a, st, reach, ln, ta):
    c = V.c_le(a[1], a[0]); return V.choice([(c, a[0]), (NOT(c), a[1])])
def rng(t):
    """(lo, hi, inclusive) of a range aggregate"""
    if t.op != 'agg': return None
    n = t.a[0].split('::')[-1]
    nm = t.a[2].split(',') if t.a[2] else []
    d = dict(zip(nm, t.a[3:]))
    if n == 'Range': return d.get('start'), d.get('end'), False
    if n == 'RangeInclusive': return d.get('start'), d.get('end'), True
    if n == 'RangeFrom': return d.get('start'), None, False
    if n == 'RangeTo': return None, d.get('end'), False
    if n == 'RangeToInclusive': return None, d.get('end'), True
    if n == 'RangeFull': return None, None, False
    return None
@model('core::ops::range::Range::contains', 'core::ops::range::RangeInclusive::contains', 'core::ops::range::RangeFrom::contains', 'core::ops::range::RangeTo::contains', 'core::ops::range::RangeToInclusive::contains',
       'core::ops::range::RangeBounds::contains')
def _(e, fr, a, st, reach, ln, ta):
    x = e.val(st, a[1]); tot = 0
    for g, v in V.alts(e.val(st, a[0])):
        r = rng(v)
        if not r: return None
        c = 1
        if r[0] is not None: c = AND(c, V.c_le(e.val(st, r[0]), x))
        if r[1] is not None: c = AND(c, V.c_le(x, e.val(st, r[1])) if r[2] else V.c_lt(x, e.val(st, r[1])))
        tot = OR(tot, AND(g, c))
    return V.Bt(tot)
@model('core::ops::range::RangeInclusive::new')
def _(e, fr, a, st, reach, ln, ta): return V.agg('core::ops::range::RangeInclusive', 'RangeInclusive', ['start', 'end'], a)
@model('core::intrinsics::discriminant_value', 'core::mem::discriminant')
def _(e, fr, a, st, reach, ln, ta):
    v = e.val(st, a[0]); u = ta[0] if ta else ('x',)
    return e.discr(v, list(u))

# ---------------- integers
def _opm(op):
    def m(e, fr, a, st, reach, ln, ta):
        u = ta[0] if ta else ('x',)
        while u[0] == 'ref': u = u[2]
        if u[0] != 'prim': return None
        x, y = e.val(st, a[0]), e.val(st, a[1])
        r = e.binop(op + 'WithOverflow' if op in ('Add', 'Sub', 'Mul') else op, x, y, list(u))
        if r.op == 'tup':
            bad = AND(reach, V.cond(r.a[1]))
            if bad: e.event('panic', 'assert:overflow:' + op, [x, y], bad, None, fr, ln)
            return r.a[0]
        return r
    return m
for _o, _n in (('BitAnd', 'bit::BitAnd::bitand'), ('BitOr', 'bit::BitOr::bitor'), ('BitXor', 'bit::BitXor::bitxor'), ('Shl', 'bit::Shl::shl'), ('Shr', 'bit::Shr::shr'),
               ('Add', 'arith::Add::add'), ('Sub', 'arith::Sub::sub'), ('Mul', 'arith::Mul::mul')):
    MODELS['core::ops::' + _n] = _opm(_o)
def _opassign(op):
    def m(e, fr, a, st, reach, ln, ta):
        u = ta[0] if ta else ('x',)
        while u[0] == 'ref': u = u[2]
        if u[0] != 'prim' or a[0].op != 'mref': return None
        x, y = e.val(st, a[0]), e.val(st, a[1])
        r = e.binop(op + 'WithOverflow', x, y, list(u))
        bad = AND(reach, V.cond(r.a[1]))
        if bad: e.event('panic', 'assert:overflow:' + op, [x, y], bad, None, fr, ln)
        return (1, V.UNIT, setv(e, st, a[0], r.a[0]))
    return m
MODELS['core::ops::arith::AddAssign::add_assign'] = _opassign('Add')
MODELS['core::ops::arith::SubAssign::sub_assign'] = _opassign('Sub')
def _be(w):
    def m(e, fr, a, st, reach, ln, ta):
        return V.mk_be(w, a[0])
    return m
def _unbe(w):
    def m(e, fr, a, st, reach, ln, ta):
        v = e.val(st, a[0])
        return V.mk_unbe(w, v)
    return m
def _le(w):
    return lambda e, fr, a, st, reach, ln, ta: V.T('lebytes', w, a[0])
def _unle(w):
    return lambda e, fr, a, st, reach, ln, ta: V.T('unle', w, e.val(st, a[0]))
for w in (16, 32, 64, 128):
    MODELS['core::num::<impl u%d>::to_be_bytes' % w] = _be(w)
    MODELS['core::num::<impl u%d>::from_be_bytes' % w] = _unbe(w)
    MODELS['core::num::<impl u%d>::to_le_bytes' % w] = _le(w)
    MODELS['core::num::<impl u%d>::from_le_bytes' % w] = _unle(w)
    MODELS['core::num::<impl u%d>::to_ne_bytes' % w] = _le(w)
MODELS['core::num::<impl usize>::to_be_bytes'] = _be(64)
def _num(name, f):
    for t in ('u8', 'u16', 'u32', 'u64', 'usize', 'u128', 'i32', 'i64'):
        MODELS['core::num::<impl %s>::%s' % (t, name)] = (lambda t: lambda e, fr, a, st, reach, ln, ta: f(t, *[e.val(st, x) for x in a]))(t)
MX = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128, 'i32': 31, 'i64': 63}
def f_checked(op):
    def f(t, x, y):
        r = op(x, y)
        fit = AND(V.c_le(V.I(0), r) if r.op != 'int' else (1 if r.a[0] >= 0 else 0), 1)
        if r.op == 'int': ok = 1 if 0 <= r.a[0] < (1 << MX[t]) else 0
        elif t[0] == 'u' and t != 'u128': ok = NOT(V.ovf(op.__name__.capitalize(), x, y, r, MX[t]))
        else: ok = NOT(V.bvar(V.T('ovf', op.__name__, t, x, y)))
        return V.choice([(ok, V.Some(r)), (NOT(ok), V.NONE)])
    return f
def f_checked_sub(t, x, y):
    ok = V.c_le(y, x)
    return V.choice([(ok, V.Some(V.sub(x, y))), (NOT(ok), V.NONE)])
_num('checked_add', f_checked(V.add)); _num('checked_mul', f_checked(V.mul)); _num('checked_sub', f_checked_sub)
_num('saturating_sub', lambda t, x, y: V.choice([(V.c_le(y, x), V.sub(x, y)), (NOT(V.c_le(y, x)), V.I(0))]))
def sat_add(t, x, y):
    return V.T('satadd', t, x, y)
_num('saturating_add', sat_add)
_num('wrapping_add', lambda t, x, y: V.T('wadd', t, x, y))
_num('wrapping_sub', lambda t, x, y: V.T('wsub', t, x, y))
def abs_diff(t, x, y):
    c = V.c_le(x, y)
    return V.choice([(c, V.sub(y, x)), (NOT(c), V.sub(x, y))])
_num('abs_diff', abs_diff)
@model('core::convert::From::from', 'core::convert::Into::into')
def m_from(e, fr, a, st, reach, ln, ta):
    if len(ta) < 2: return None
    dst, src = ta[0], ta[1]
    if fr is not None and False: pass
    return conv(e, fr, a, st, reach, ln, dst, src)
def conv(e, fr, a, st, reach, ln, dst, src):
    while dst[0] == 'ref': dst = dst[2]
    s2 = src
    while s2[0] == 'ref': s2 = s2[2]
    if dst == s2: return e.val(st, a[0])
    if dst[0] == 'prim' and s2[0] == 'prim':
        v = e.val(st, a[0]); e.regwidth(v, s2[1])
        if s2[1] == 'bool': return v
        return v
    BYTESY = ('alloc::vec::Vec', 'alloc::string::String', 'alloc::boxed::Box', 'alloc::borrow::Cow', 'alloc::sync::Arc', 'rustls_pki_types::CertificateDer')
    def bytesy(t): return t[0] in ('slice', 'array', 'str') or (t[0] == 'adt' and t[1] in BYTESY)
    if bytesy(dst) and bytesy(s2): return e.val(st, a[0])
    if dst[0] == 'adt' and dst[1] == V.OPT: return V.Some(a[0])
    return None
@model('core::convert::Into::into')
def m_into(e, fr, a, st, reach, ln, ta):
    if len(ta) < 2: return None
    r = conv(e, fr, a, st, reach, ln, ta[1], ta[0])
    if r is not None: return r
    return e.call_path(fr, {'path': 'core::convert::From::from', 'args': [ta[1], ta[0]], 'trait': 'core::convert::From'}, a, st, reach, ln)
@model('core::convert::TryInto::try_into', 'core::convert::TryFrom::try_from')
def m_tryinto(e, fr, a, st, reach, ln, ta): return None
def _tryconv(e, fr, a, st, reach, ln, dst, src):
    dref = dst[0] == 'ref'
    while dst[0] == 'ref': dst = dst[2]
    s2 = src
    while s2[0] == 'ref': s2 = s2[2]
    v = e.val(st, a[0])
    if dst[0] == 'prim' and s2[0] == 'prim':
        w, ws = e.PW.get(dst[1], 64), e.PW.get(s2[1], 64)
        if ws <= w: return V.Ok(v)
        e.regwidth(v, s2[1])
        c = V.c_le(v, V.I((1 << w) - 1))
        return V.choice([(c, V.Ok(v)), (NOT(c), V.Err(V.T('tryfromint')))])
    if dst[0] == 'array' and isinstance(dst[2], int) and (s2[0] == 'slice' or (s2[0] == 'adt' and s2[1] == 'alloc::vec::Vec')):
        c = V.c_eq(V.length(v), V.I(dst[2]))
        return V.choice([(c, V.Ok(a[0] if dref and a[0].op == 'mref' else v)), (NOT(c), V.Err(V.T('tryfromslice')))])
    return None
@model('core::convert::TryInto::try_into')
def _(e, fr, a, st, reach, ln, ta):
    if len(ta) < 2: return None
    r = _tryconv(e, fr, a, st, reach, ln, ta[1], ta[0])
    if r is not None: return r
    return e.call_path(fr, {'path': 'core::convert::TryFrom::try_from', 'args': [ta[1], ta[0]], 'trait': 'core::convert::TryFrom'}, a, st, reach, ln)
@model('core::convert::TryFrom::try_from')
def _(e, fr, a, st, reach, ln, ta):
    if len(ta) < 2: return None
    r = _tryconv(e, fr, a, st, reach, ln, ta[0], ta[1])
    if r is None and ta[0][0] == 'adt' and e.find_impl('core::convert::From', tuple(ta[:2])):        # blanket implementation over an infallible conversion
        rs = e.call_path(fr, {'path': 'core::convert::From::from', 'args': [ta[0], ta[1]], 'trait': 'core::convert::From'}, a, st, reach, ln)
        return [(c, V.Ok(v), s2) for c, v, s2 in rs]
    return r

# ---------------- slices and vectors
@model('core::slice::<impl [T]>::len', 'alloc::vec::Vec::len', 'core::str::<impl str>::len', 'alloc::string::String::len', 'core::iter::traits::exact_size::ExactSizeIterator::len',
       'alloc::collections::vec_deque::VecDeque::len')
def m_len(e, fr, a, st, reach, ln, ta): return V.length(coll(e.val(st, a[0])))
@model('core::slice::<impl [T]>::is_empty', 'alloc::vec::Vec::is_empty', 'core::str::<impl str>::is_empty', 'alloc::string::String::is_empty', 'alloc::collections::vec_deque::VecDeque::is_empty')
def m_isempty(e, fr, a, st, reach, ln, ta): return V.Bt(V.c_eq(V.length(e.val(st, a[0])), V.I(0)))
@model('alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity', 'alloc::string::String::new', 'alloc::collections::vec_deque::VecDeque::new', 'alloc::string::String::with_capacity')
def m_new(e, fr, a, st, reach, ln, ta): return V.T('seq')
@model('alloc::boxed::Box::new_uninit')
def m_box_uninit(e, fr, a, st, reach, ln, ta): return V.T('uninit', e.fid, ln)
@model('alloc::vec::from_elem')
def m_from_elem(e, fr, a, st, reach, ln, ta): return V.T('rep', a[0], a[1])
def loc_of(a): return V.MREF.get(a)
def setv(e, st, a, v):
    s = dict(st)
    if a.op == 'mref': e.write(s, V.MREF[a], v)
    else: e.write(s, (('T', a), ()), v)
    return s
def content(e, st, a):
    if a.op == 'mref': return e.val(st, a)
    return e.read(st, (('T', a), ()))
@model('alloc::vec::Vec::push', 'alloc::string::String::push', 'alloc::collections::vec_deque::VecDeque::push_back')
def m_push(e, fr, a, st, reach, ln, ta):
    v = content(e, st, a[0])
    return (1, V.UNIT, setv(e, st, a[0], V.mkseq(V.as_seq(v) + [V.T('e', a[1])])))
@model('alloc::collections::vec_deque::VecDeque::push_front')
def m_push_front(e, fr, a, st, reach, ln, ta):
    v = content(e, st, a[0])
    return (1, V.UNIT, setv(e, st, a[0], V.mkseq([V.T('e', a[1])] + V.as_seq(v))))
@model('alloc::vec::Vec::extend_from_slice', 'alloc::string::String::push_str', 'core::iter::traits::collect::Extend::extend')
def m_extend(e, fr, a, st, reach, ln, ta):
    v = content(e, st, a[0])
    x = coll(e.val(st, a[1]))
    x = materialize(x)
    return (1, V.UNIT, setv(e, st, a[0], V.mkseq(V.as_seq(v) + [V.T('s', x)])))
@model('alloc::vec::Vec::append')
def m_append(e, fr, a, st, reach, ln, ta):
    if a[1].op != 'mref' and a[1].op != 'arg': pass
    v = content(e, st, a[0]); x = content(e, st, a[1])
    s = setv(e, st, a[0], V.mkseq(V.as_seq(v) + [V.T('s', x)]))
    s = setv(e, s, a[1], V.T('seq'))
    return (1, V.UNIT, s)
@model('alloc::vec::Vec::clear', 'alloc::string::String::clear')
def m_clear(e, fr, a, st, reach, ln, ta): return (1, V.UNIT, setv(e, st, a[0], V.T('seq')))
@model('alloc::vec::Vec::truncate')
def m_truncate(e, fr, a, st, reach, ln, ta):
    v = content(e, st, a[0])
    L = V.length(v); c = V.c_le(a[1], L)
    nv = V.choice([(c, V.mkslice(v, V.I(0), a[1])), (NOT(c), v)])
    return (1, V.UNIT, setv(e, st, a[0], nv))
@model('alloc::vec::Vec::insert')
def m_insert(e, fr, a, st, reach, ln, ta):
    v = content(e, st, a[0])
    if V.is_int(a[1]) and a[1].a[0] == 0: nv = V.mkseq([V.T('e', a[2])] + V.as_seq(v))
    else: nv = V.T('insert', v, a[1], a[2])
    return (1, V.UNIT, setv(e, st, a[0], nv))
@model('alloc::vec::Vec::resize')
def m_resize(e, fr, a, st, reach, ln, ta):
    v = content(e, st, a[0])
    if v.op == 'seq' and not v.a: nv = V.T('rep', a[2], a[1])
    else:
        n = V.length(v)
        if V.is_int(n) and V.is_int(a[1]):
            k = a[1].a[0] - n.a[0]
            nv = V.mkslice(v, V.I(0), a[1]) if k < 0 else v if k == 0 else V.mkseq(V.as_seq(v) + [V.T('s', V.T('rep', a[2], V.I(k)))])
        else: nv = V.T('resize', v, a[1], a[2])
    return (1, V.UNIT, setv(e, st, a[0], nv))
@model('alloc::vec::Vec::split_off')
def m_split_off(e, fr, a, st, reach, ln, ta):
    v = content(e, st, a[0])
    bad = AND(reach, V.c_lt(V.length(v), a[1]))
    if bad: e.event('panic', 'index:split_off', [v, a[1]], bad, None, fr, ln)
    s = setv(e, st, a[0], V.mkslice(v, V.I(0), a[1]))
    return (1, V.mkslice(v, a[1], V.length(v)), s)
@model('alloc::vec::Vec::drain')
def m_drain(e, fr, a, st, reach, ln, ta):
    v = content(e, st, a[0]); r = rng(a[1])
    if not r: return None
    lo = r[0] or V.I(0); hi = r[1] if r[1] is not None else V.length(v)
    if r[2]: hi = V.add(hi, V.I(1))
    bad = AND(reach, OR(V.c_lt(V.length(v), hi), V.c_lt(hi, lo)))
    if bad: e.event('panic', 'index:drain', [v, lo, hi], bad, None, fr, ln)
    nv = V.mkseq([V.T('s', V.mkslice(v, V.I(0), lo)), V.T('s', V.mkslice(v, hi, V.length(v)))]) if not (V.is_int(lo) and lo.a[0] == 0) else V.mkslice(v, hi, V.length(v))
    return (1, V.T('iter', V.mkslice(v, lo, hi)), setv(e, st, a[0], nv))
@model('alloc::vec::Vec::pop')
def m_pop(e, fr, a, st, reach, ln, ta): return None
@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def m_first(e, fr, a, st, reach, ln, ta): return None
def nonempty(v): return NOT(V.c_eq(V.length(v), V.I(0)))
@model('core::slice::<impl [T]>::first')
def _(e, fr, a, st, reach, ln, ta):
    v = e.val(st, a[0]); c = nonempty(v)
    return V.choice([(c, V.Some(V.proj(v, ('i', V.I(0))))), (NOT(c), V.NONE)])
@model('core::slice::<impl [T]>::last')
def _(e, fr, a, st, reach, ln, ta):
    v = e.val(st, a[0]); c = nonempty(v)
    return V.choice([(c, V.Some(V.proj(v, ('i', V.sub(V.length(v), V.I(1)))))), (NOT(c), V.NONE)])
@model('core::slice::<impl [T]>::last_mut', 'core::slice::<impl [T]>::first_mut')
def _(e, fr, a, st, reach, ln, ta): return None
@model('core::slice::<impl [T]>::last_mut')
def _(e, fr, a, st, reach, ln, ta):
    if a[0].op != 'mref': return None
    v = e.val(st, a[0]); c = nonempty(v); r, p = V.MREF[a[0]]
    return V.choice([(c, V.Some(V.mref((r, p + (('i', V.sub(V.length(v), V.I(1))),))))), (NOT(c), V.NONE)])
@model('core::slice::<impl [T]>::first_mut')
def _(e, fr, a, st, reach, ln, ta):
    if a[0].op != 'mref': return None
    v = e.val(st, a[0]); c = nonempty(v); r, p = V.MREF[a[0]]
    return V.choice([(c, V.Some(V.mref((r, p + (('i', V.I(0)),))))), (NOT(c), V.NONE)])
@model('core::slice::<impl [T]>::get_mut')
def _(e, fr, a, st, reach, ln, ta):
    if a[0].op != 'mref' or not ta or ta[-1] != ['prim', 'usize']: return None
    v = e.val(st, a[0]); i = e.val(st, a[1]); c = V.c_lt(i, V.length(v)); r, p = V.MREF[a[0]]
    return V.choice([(c, V.Some(V.mref((r, p + (('i', i),))))), (NOT(c), V.NONE)])
@model('core::slice::<impl [T]>::split_first')
def _(e, fr, a, st, reach, ln, ta):
    v = e.val(st, a[0]); c = nonempty(v)
    return V.choice([(c, V.Some(V.T('tup', V.proj(v, ('i', V.I(0))), V.mkslice(v, V.I(1), V.length(v))))), (NOT(c), V.NONE)])
@model('core::slice::<impl [T]>::split_last')
def _(e, fr, a, st, reach, ln, ta):
    v = e.val(st, a[0]); c = nonempty(v); n = V.sub(V.length(v), V.I(1))
    return V.choice([(c, V.Some(V.T('tup', V.proj(v, ('i', n)), V.mkslice(v, V.I(0), n)))), (NOT(c), V.NONE)])
@model('core::slice::<impl [T]>::chunks_exact')
def m_chunks_exact(e, fr, a, st, reach, ln, ta): return V.T('chunks', e.val(st, a[0]), e.val(st, a[1]), V.T('str', 'exact'))
@model('core::slice::<impl [T]>::rchunks')
def m_chunks_other(e, fr, a, st, reach, ln, ta):
    # groupings of a slice that are not `chunks`: kept apart under the same name with a tag
    return V.T('chunks', e.val(st, a[0]), e.val(st, a[1]), V.T('str', 'other'))
@model('core::slice::<impl [T]>::windows')
def m_windows(e, fr, a, st, reach, ln, ta): return V.T('chunks', e.val(st, a[0]), e.val(st, a[1]), V.T('str', 'windows'))
@model('core::slice::<impl [T]>::chunks')
def m_chunks(e, fr, a, st, reach, ln, ta):
    n = e.val(st, a[1])
    z = AND(reach, V.c_eq(n, V.I(0)))
    if z: e.event('panic', 'index:chunks', [n], z, None, fr, ln)
    return V.T('chunks', e.val(st, a[0]), n)
@model('core::slice::<impl [T]>::split_at')
def _(e, fr, a, st, reach, ln, ta):
    v = e.val(st, a[0])
    bad = AND(reach, V.c_lt(V.length(v), a[1]))
    if bad: e.event('panic', 'index:split_at', [v, a[1]], bad, None, fr, ln)
    return V.T('tup', V.mkslice(v, V.I(0), a[1]), V.mkslice(v, a[1], V.length(v)))
@model('core::slice::<impl [T]>::split_at_mut')
def _(e, fr, a, st, reach, ln, ta):
    if a[0].op != 'mref': return None
    r, p = V.MREF[a[0]]; v = e.val(st, a[0]); n = V.length(v)
    bad = AND(reach, V.c_lt(n, a[1]))
    if bad: e.event('panic', 'index:split_at', [v, a[1]], bad, None, fr, ln)
    return V.T('tup', V.mref((r, p + (('sl', V.I(0), a[1]),))), V.mref((r, p + (('sl', a[1], n),))))
@model('core::iter::sources::repeat::repeat')
def _(e, fr, a, st, reach, ln, ta): return V.T('iter', V.T('forever', e.val(st, a[0])))
@model('core::iter::sources::repeat_n::repeat_n')
def _(e, fr, a, st, reach, ln, ta): return V.T('iter', V.T('rep', e.val(st, a[0]), e.val(st, a[1])))
@model('core::slice::<impl [T]>::split_at_checked')
def _(e, fr, a, st, reach, ln, ta):
    v = e.val(st, a[0]); c = V.c_le(a[1], V.length(v))
    return V.choice([(c, V.Some(V.T('tup', V.mkslice(v, V.I(0), a[1]), V.mkslice(v, a[1], V.length(v))))), (NOT(c), V.NONE)])
def rng_of_type(i, t):
    # a range that is not written out: its start and end fields
    while t[0] == 'ref': t = t[2]
    if t[0] != 'adt' or not t[1].startswith('core::ops::range::'): return None
    n = t[1].split('::')[-1]; g = lambda f: V.proj(i, ('f', None, f))
    if n == 'Range': return g('start'), g('end'), False
    if n == 'RangeFrom': return g('start'), None, False
    if n == 'RangeTo': return None, g('end'), False
    return None
def rbounds(e, st, v, i, ta=None):
    i = e.val(st, i)
    r = rng(i)
    if r is None and ta is not None: r = rng_of_type(i, ta)
    if r is None: return None
    lo = r[0] if r[0] is not None else V.I(0)
    hi = r[1] if r[1] is not None else V.length(v)
    if r[2]: hi = V.add(hi, V.I(1))
    return lo, hi
def slok(v, lo, hi, r):
    c = V.c_le(hi, V.length(v))
    return AND(c, V.c_le(lo, hi))
@model('core::slice::<impl [T]>::get', 'core::str::<impl str>::get')
def _(e, fr, a, st, reach, ln, ta):
    v = e.val(st, a[0]); b = rbounds(e, st, v, a[1], ta[1] if len(ta) > 1 else None)
    if b:
        c = slok(v, b[0], b[1], a[1])
        return V.choice([(c, V.Some(V.mkslice(v, *b))), (NOT(c), V.NONE)])
    if e.val(st, a[1]).op == 'agg': return None
    c = V.c_lt(a[1], V.length(v))
    return V.choice([(c, V.Some(V.proj(v, ('i', a[1])))), (NOT(c), V.NONE)])
@model('core::slice::<impl [T]>::get_mut')
def _(e, fr, a, st, reach, ln, ta):
    if a[0].op != 'mref': return None
    v = e.val(st, a[0]); b = rbounds(e, st, v, a[1], ta[1] if len(ta) > 1 else None); r, p = V.MREF[a[0]]
    if b:
        c = slok(v, b[0], b[1], a[1])
        return V.choice([(c, V.Some(V.mref((r, p + (('sl', b[0], b[1]),))))), (NOT(c), V.NONE)])
    if e.val(st, a[1]).op == 'agg': return None
    c = V.c_lt(a[1], V.length(v))
    return V.choice([(c, V.Some(V.mref((r, p + (('i', a[1]),))))), (NOT(c), V.NONE)])
@model('core::ops::index::Index::index')
def _(e, fr, a, st, reach, ln, ta):
    v = e.val(st, a[0]); b = rbounds(e, st, v, a[1], ta[1] if len(ta) > 1 else None)
    if b:
        bad = AND(reach, NOT(slok(v, b[0], b[1], a[1])))
        if bad: e.event('panic', 'index:range', [v, b[0], b[1]], bad, None, fr, ln)
        return V.mkslice(v, *b)
    i = e.val(st, a[1])
    if len(ta) > 1 and ta[1][0] != 'prim': return None
    bad = AND(reach, NOT(V.c_lt(i, V.length(v))))
    if bad: e.event('panic', 'index:elem', [v, i], bad, None, fr, ln)
    return V.proj(v, ('i', i))
@model('core::ops::index::IndexMut::index_mut')
def _(e, fr, a, st, reach, ln, ta):
    if a[0].op == 'mref': r, p = V.MREF[a[0]]
    else: r, p = ('T', a[0]), ()
    v = e.read(st, (r, p)); b = rbounds(e, st, v, a[1], ta[1] if len(ta) > 1 else None)
    if b:
        bad = AND(reach, NOT(slok(v, b[0], b[1], a[1])))
        if bad: e.event('panic', 'index:range', [v, b[0], b[1]], bad, None, fr, ln)
        if V.is_int(b[0]) and b[0].a[0] == 0 and b[1] is V.length(v): return V.mref((r, p))
        return V.mref((r, p + (('sl', b[0], b[1]),)))
    i = e.val(st, a[1])
    if len(ta) > 1 and ta[1][0] != 'prim': return None
    bad = AND(reach, NOT(V.c_lt(i, V.length(v))))
    if bad: e.event('panic', 'index:elem', [v, i], bad, None, fr, ln)
    return V.mref((r, p + (('i', i),)))
@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def _(e, fr, a, st, reach, ln, ta):
    x = e.val(st, a[1])
    d = content(e, st, a[0])
    bad = AND(reach, NOT(V.c_eq(V.length(d), V.length(x))))
    if bad: e.event('panic', 'index:copy_from_slice', [d, x], bad, None, fr, ln)
    return (1, V.UNIT, setv(e, st, a[0], x))
@model('core::slice::<impl [T]>::fill')
def _(e, fr, a, st, reach, ln, ta): return (1, V.UNIT, setv(e, st, a[0], V.T('rep', e.val(st, a[1]), V.length(content(e, st, a[0])))))
@model('core::slice::<impl [T]>::copy_within')
def _(e, fr, a, st, reach, ln, ta):
    v = content(e, st, a[0]); b = rbounds(e, st, v, a[1])
    if not b: return None
    src = V.mkslice(v, *b)
    bad = AND(reach, NOT(slok(v, b[0], b[1], a[1])))
    if bad: e.event('panic', 'index:copy_within', [v, b[0], b[1]], bad, None, fr, ln)
    nv = V.update(v, [('sl', a[2], V.add(a[2], V.length(src)))], src)
    return (1, V.UNIT, setv(e, st, a[0], nv))
@model('core::slice::<impl [T]>::contains', 'alloc::collections::vec_deque::VecDeque::contains')
def _(e, fr, a, st, reach, ln, ta):
    X = e.val(st, a[0]); y = e.val(st, a[1])
    el = V.elem(X)
    outs = e.call_path(fr, {'path': 'core::cmp::PartialEq::eq', 'args': [ta[0], ta[0]] if ta else [], 'trait': 'core::cmp::PartialEq'}, [el, y], st, reach, ln)
    c = V.cond(outs[0][1])
    return V.Bt(NOT(mk_all(X, NOT(c))))
@model('core::slice::<impl [T]>::starts_with', 'core::slice::<impl [T]>::ends_with')
def _(e, fr, a, st, reach, ln, ta): return None
@model('core::slice::<impl [T]>::starts_with')
def _(e, fr, a, st, reach, ln, ta):
    v = e.val(st, a[0]); p = e.val(st, a[1]); n = V.length(p)
    return V.Bt(AND(V.c_le(n, V.length(v)), V.c_eq(V.mkslice(v, V.I(0), n), p)))
@model('core::slice::<impl [T]>::ends_with')
def _(e, fr, a, st, reach, ln, ta):
    v = e.val(st, a[0]); p = e.val(st, a[1]); n = V.length(p); L = V.length(v)
    return V.Bt(AND(V.c_le(n, L), V.c_eq(V.mkslice(v, V.sub(L, n), L), p)))

# ---------------- iterators
def mk_all(X, Bc):
    X = coll(X)
    Bc = V.canon(Bc)
    if Bc == 1: return 1
    if X.op == 'filter': return mk_all(X.a[0], OR(NOT(V.cond(X.a[1])), Bc))
    if X.op == 'map': return mk_all(X.a[0], Bc)
    if X.op == 'rev':
        el = _elem0(X)
        return mk_all(X.a[0], V.subst_c(Bc, {el: elem(X.a[0]), 'all': 1}, {}))
    if X.op == 'chain': 
        return V.bvar(V.T('all', X, Bc))
    if X.op == 'arr' and len(X.a) <= 64:
        el = V.elem(X); r = 1
        for x in X.a: r = AND(r, V.subst_c(Bc, {el: x, 'all': 1}, {}))
        return r
    return V.bvar(V.T('all', X, Bc))
V.mk_all = mk_all
V.coll = coll
_elem0 = V.elem
def elem(x):
    x = coll(x)
    if x.op == 'filter': return elem(x.a[0])
    if x.op == 'map': return x.a[1]
    return _elem0(x)
V.elem = elem
def materialize(x):
    """sequence value of an iterator/collection"""
    x = coll(x)
    if x.op == 'map':
        base = x.a[0]
        if base.op == 'arr' and len(base.a) <= 64:
            el = V.elem(base)
            return V.T('arr', *[V.subst(x.a[1], {el: y, 'all': 1}, {}) for y in base.a])
        if x.a[1] is elem(base): return materialize(base)
        return V.T('coll', base, x.a[1])
    if x.op == 'filter': return V.T('coll', x, elem(x))
    if x.op == 'chain': return V.mkseq([V.T('s', materialize(y)) for y in x.a])
    return x
def closure_pure(e, fr, f, args, st, reach, ln):
    ne = len(e.events)
    outs = e.apply(fr, e.val(st, f), args, st, reach, ln)
    if not outs: return None
    tot, v, s = branches(e, outs)[0]
    # a lazy closure that changes state it captured is not evaluated here
    if any(s.get(k) is not x for k, x in st.items()) and any(V.MREF[m][0] in st and s.get(V.MREF[m][0]) is not st[V.MREF[m][0]] for m in V.mrefs_in(e, st, e.val(st, f))): return None
    return v, s
@model(IT + 'map')
def _(e, fr, a, st, reach, ln, ta):
    X = coll(e.val(st, a[0]))
    r = closure_pure(e, fr, a[1], [elem(X)], st, reach, ln)
    if r is None: return None
    return (1, V.T('iter', V.T('map', X, r[0])), r[1])
@model(IT + 'unzip')
def _(e, fr, a, st, reach, ln, ta):
    X = coll(e.val(st, a[0])); el = elem(X)
    base, body = (X.a[0], X.a[1]) if X.op == 'map' else (X, el)
    return V.T('tup', *[materialize(V.T('map', base, V.proj(body, ('f', None, str(i))))) for i in (0, 1)])
@model(IT + 'filter')
def _(e, fr, a, st, reach, ln, ta):
    X = coll(e.val(st, a[0]))
    r = closure_pure(e, fr, a[1], [elem(X)], st, reach, ln)
    if r is None: return None
    return (1, V.T('iter', V.T('filter', X, V.Bt(V.cond(r[0])))), r[1])
@model(IT + 'filter_map', IT + 'flat_map_opt')
def _(e, fr, a, st, reach, ln, ta):
    X = coll(e.val(st, a[0]))
    r = closure_pure(e, fr, a[1], [elem(X)], st, reach, ln)
    if r is None: return None
    v = r[0]
    return (1, V.T('iter', V.T('map', V.T('filter', X, V.Bt(V.is_some(v))), V.somev(v))), r[1])
@model(IT + 'enumerate')
def _(e, fr, a, st, reach, ln, ta): return V.T('iter', V.T('enum', coll(e.val(st, a[0]))))
@model(IT + 'zip')
def _(e, fr, a, st, reach, ln, ta): return V.T('iter', V.T('zip', coll(e.val(st, a[0])), coll(e.val(st, a[1]))))
@model(IT + 'rev')
def _(e, fr, a, st, reach, ln, ta):
    X = coll(e.val(st, a[0]))
    if X.op == 'arr': return V.T('iter', V.T('arr', *reversed(X.a)))
    return V.T('iter', X.a[0] if X.op == 'rev' else V.T('rev', X))
def split_while(take):
    def m(e, fr, a, st, reach, ln, ta):
        X = coll(e.val(st, a[0]))
        if X.op != 'arr': return None
        s, k = st, 0
        for x in X.a:
            r = closure_pure(e, fr, a[1], [x], s, reach, ln)
            if r is None: return None
            c = V.cond(r[0])
            if c not in (0, 1): return None
            s = r[1]
            if not c: break
            k += 1
        return (1, V.T('iter', V.T('arr', *(X.a[:k] if take else X.a[k:]))), s)
    return m
MODELS[IT + 'take_while'] = split_while(True); MODELS[IT + 'skip_while'] = split_while(False)
@model(IT + 'chain')
def _(e, fr, a, st, reach, ln, ta): return V.T('iter', V.T('chain', coll(e.val(st, a[0])), coll(e.val(st, a[1]))))
def item_type(t):
    """type of the items of an iterator type"""
    while t and t[0] == 'ref': t = t[2]
    if not t or t[0] != 'adt': return None
    n = t[1].split('::')[-1]
    g = [x for x in (t[2] if len(t) > 2 and isinstance(t[2], (list, tuple)) else []) if isinstance(x, (list, tuple))]
    if n in ('Iter', 'IterMut', 'IntoIter') and g: return g[0]
    if n in ('Copied', 'Cloned', 'Rev', 'Skip', 'Take', 'Fuse', 'Peekable') and g: return item_type(g[0])
    return None
def flatten(X, ity):
    X = coll(X)
    if X.op == 'choice': return V.choice([(c, flatten(x, ity)) for c, x in V.alts(X)])
    if ity is None: return None
    while ity[0] == 'ref': ity = ity[2]
    if ity[0] == 'adt' and ity[1] == V.OPT:
        el = elem(X)
        return V.T('map', V.T('filter', X, V.Bt(V.is_some(el))), V.somev(el))
    if X.op == 'arr' and len(X.a) == 1: return coll(X.a[0])
    if X.op == 'arr' and len(X.a) == 0: return X
    return None
@model('core::iter::sources::once::once')
def _(e, fr, a, st, reach, ln, ta): return V.T('iter', V.T('arr', a[0]))
@model(OPTP + 'iter', OPTP + 'into_iter')
def _(e, fr, a, st, reach, ln, ta):
    v = e.val(st, a[0]); c = V.is_some(v)
    return V.T('iter', V.choice([(c, V.T('arr', V.somev(v))), (NOT(c), V.T('arr'))]))
@model(IT + 'flatten')
def _(e, fr, a, st, reach, ln, ta):
    X = coll(e.val(st, a[0]))
    ity = item_type(ta[0]) if ta else None
    r = flatten(X, ity)
    return None if r is None else V.T('iter', r)
def listy(t):
    while t and t[0] == 'ref': t = t[2]
    return bool(t) and (t[0] in ('slice', 'array') or t[0] == 'adt' and t[1].split('::')[-1] in ('Vec', 'VecDeque', 'Box'))
@model(IT + 'flat_map')
def _(e, fr, a, st, reach, ln, ta):
    X = coll(e.val(st, a[0]))
    r = closure_pure(e, fr, a[1], [elem(X)], st, reach, ln)
    if r is None: return None
    v = e.deepval(r[1], e.val(r[1], r[0])); ut = ta[1] if len(ta) > 1 else None
    if ut and ut[0] == 'adt' and ut[1] == V.OPT: return (1, V.T('iter', V.T('map', V.T('filter', X, V.Bt(V.is_some(v))), V.somev(v))), r[1])
    if v.op == 'choice' or not (listy(ut) or v.op == 'iter'): return None
    v = materialize(v)
    return (1, V.T('iter', flat(X, [V.T('e', x) for x in v.a] if v.op == 'arr' else V.as_seq(v))), r[1])
@model('alloc::slice::<impl [T]>::concat')
def _(e, fr, a, st, reach, ln, ta):
    X = e.val(st, a[0])
    if X.op == 'arr' and len(X.a) <= 16: return V.mkseq([V.T('s', e.val(st, x)) for x in X.a])
    if X.op in ('choice', 'seq', 'flat'): return None
    v = e.deepval(st, e.val(st, elem(X)))
    if v.op == 'choice': return None
    v = materialize(v)
    return flat(X, [V.T('e', x) for x in v.a] if v.op == 'arr' else V.as_seq(v))
@model(IT + 'take')
def _(e, fr, a, st, reach, ln, ta):
    X = coll(e.val(st, a[0])); n = V.length(X); c = V.c_le(a[1], n)
    if X.op == 'forever': return V.T('iter', V.T('rep', X.a[0], a[1]))
    return V.T('iter', V.mkslice(X, V.I(0), V.choice([(c, a[1]), (NOT(c), n)])))
@model(IT + 'skip')
def _(e, fr, a, st, reach, ln, ta):
    X = coll(e.val(st, a[0])); return V.T('iter', V.mkslice(X, a[1], V.length(X)))
def search(kind):
    """short-circuiting adapters: any, all, find, find_map, position"""
    stop = {'any': V.cond, 'all': lambda v: NOT(V.cond(v)), 'find': V.cond, 'find_map': V.is_some, 'position': V.cond}[kind]
    res = {'any': lambda v, el, i: V.Bt(1), 'all': lambda v, el, i: V.Bt(0), 'find': lambda v, el, i: V.Some(el), 'find_map': lambda v, el, i: V.Some(V.somev(v)), 'position': lambda v, el, i: V.Some(i)}[kind]
    end = {'any': V.Bt(0), 'all': V.Bt(1)}.get(kind, V.NONE)
    def m(e, fr, a, st, reach, ln, ta):
        X = coll(e.val(st, a[0])); f = e.val(st, a[1])
        return run(e, fr, X, f, st, reach, ln)
    def run(e, fr, X, f, st, reach, ln):
        X = coll(X)
        if X.op == 'choice':
            out = []
            for c, x in V.alts(X):
                r = run(e, fr, x, f, st, AND(reach, c), ln)
                if r is None: return None
                out += [(AND(c, cc), v, s) for cc, v, s in r if AND(c, cc) != 0]
            return out
        if X.op == 'chain' and kind != 'position':
            r = run(e, fr, X.a[0], f, st, reach, ln)
            if r is None: return None
            out = [x for x in r if x[1] is not end]
            for c, v, s in r:
                if v is not end: continue
                r2 = run(e, fr, X.a[1], f, s, AND(reach, c), ln)
                if r2 is None: return None
                out += [(AND(c, cc), v2, s2) for cc, v2, s2 in r2 if AND(c, cc) != 0]
            return out
        Y = materialize(X)
        if Y.op == 'arr' and len(Y.a) <= 16:
            out = []; cur = [(1, st)]
            for i, y in enumerate(Y.a):
                tot, _, s = branches(e, [(c, V.UNIT, s) for c, s in cur])[0]
                if tot == 0: break
                nxt = []
                for c, v, s2 in app(e, fr, f, [y], s, reach, ln, tot):
                    z = stop(v)
                    if AND(c, z): out.append((AND(c, z), res(v, y, V.I(i)), s2))
                    if AND(c, NOT(z)): nxt.append((AND(c, NOT(z)), s2))
                cur = nxt
            out += [(c, end, s) for c, s in cur]
            return out
        outs, lvs = hof(e, fr, X, f, [], st, reach, ln)
        if not outs: return None
        tot, v, s = branches(e, outs)[0]
        z = stop(v); steps = {r: s.get(r, lv) for r, lv in lvs.items()}
        live = {r: lv for r, lv in lvs.items() if steps[r] is not lv}
        back = {lv: V.LVINFO[lv][1] for r, lv in lvs.items() if r not in live}
        if back:
            z = V.subst_c(z, back, {}); v = V.subst(v, back); steps = {r: V.subst(x, back) for r, x in steps.items()}
        A = mk_all(X, NOT(z))
        fin = dict(s); hit = dict(s)
        for r, lv in lvs.items():
            if r not in live: fin[r] = hit[r] = V.LVINFO[lv][1]; continue
            fin[r] = V.mk_fold(X, V.LVINFO[lv][1], V.subst(steps[r], {lv: V.T('acc')})); hit[r] = steps[r]
        if live:
            lid = next(iter(live.values())).a[0]
            info = dict(id=lid, header=None, init={lv: V.LVINFO[lv][1] for lv in live.values()}, step={lv: steps[r] for r, lv in live.items()}, reach=reach, fn=fr.fn['id'],
                        back=AND(V.hasnext_cond(X) if hasattr(V, 'hasnext_cond') else 1, NOT(z)) if False else NOT(z), over=X, body=NOT(z))
            V.LOOPS[lid] = info; e.loops[lid] = info
        return [(NOT(A), res(v, elem(X), V.T('idx', X)), hit), (A, end, fin)]
    return m
for _k in ('any', 'all', 'find', 'find_map', 'position'): MODELS[IT + _k] = search(_k)
# ---------------- sets
HS = ['std::collections::hash::set::HashSet::', 'alloc::collections::btree::set::BTreeSet::']
def set_in(S, x):
    if S.op == 'choice': return ORS(*[AND(c, set_in(y, x)) for c, y in V.alts(S)])
    if S.op == 'set0': return 0
    if S.op == 'seti': return OR(V.c_eq(S.a[1], x), set_in(S.a[0], x))
    if S.op == 'setof': return NOT(mk_all(S.a[0], NOT(V.c_eq(elem(S.a[0]), x))))
    return V.bvar(V.T('setin', S, x))
@model(*[h + n for h in HS for n in ('new', 'with_capacity', 'default')])
def _(e, fr, a, st, reach, ln, ta): return V.T('set0')
@model(*[h + 'contains' for h in HS])
def _(e, fr, a, st, reach, ln, ta): return V.Bt(set_in(e.val(st, a[0]), e.val(st, a[1])))
@model(*[h + 'insert' for h in HS])
def _(e, fr, a, st, reach, ln, ta):
    S = content(e, st, a[0])
    return (1, V.Bt(NOT(set_in(S, a[1]))), setv(e, st, a[0], V.T('seti', S, a[1])))
def set_size(S):
    if S.op == 'choice': return V.choice([(c, set_size(y)) for c, y in V.alts(S)])
    if S.op == 'set0': return V.I(0)
    if S.op == 'seti': return V.choice([(set_in(S.a[0], S.a[1]), set_size(S.a[0])), (NOT(set_in(S.a[0], S.a[1])), V.add(set_size(S.a[0]), V.I(1)))])
    return V.length(S)
@model(*[h + 'len' for h in HS])
def _(e, fr, a, st, reach, ln, ta): return set_size(e.val(st, a[0]))
@model(*[h + 'is_empty' for h in HS])
def _(e, fr, a, st, reach, ln, ta): return V.Bt(V.c_eq(set_size(e.val(st, a[0])), V.I(0)))
@model(IT + 'count')
def _(e, fr, a, st, reach, ln, ta): return V.length(materialize(coll(e.val(st, a[0]))))
def setof(X, path):
    # the elements of X without repetition (maps: the last value of every key); order and size are not those of X
    return V.T('setof', materialize(X), 'set') if path.endswith('Set') else V.T('setof', materialize(X), path.split('::')[-1])
@model('core::iter::traits::collect::FromIterator::from_iter')
def _(e, fr, a, st, reach, ln, ta): return collect(e.val(st, a[0]), ta[0] if ta else None)
@model(IT + 'collect')
def _(e, fr, a, st, reach, ln, ta): return collect(e.val(st, a[0]), ta[1] if len(ta) > 1 else None)
def collect(x, rt):
    X = coll(x)
    if rt and rt[0] == 'adt' and rt[1].split('::')[-1] in ('HashSet', 'BTreeSet', 'HashMap', 'BTreeMap', 'BinaryHeap'): return setof(X, rt[1])
    v = materialize(X)
    if rt and rt[0] == 'adt' and rt[1] in (V.RES, V.OPT):
        if X.op == 'map':
            el = X.a[1]
            if rt[1] == V.RES:
                c = mk_all(X.a[0], V.is_ok(el))
                return V.choice([(c, V.Ok(materialize(V.T('map', X.a[0], V.okv(el))))), (NOT(c), V.Err(V.errv(el)))])
            c = mk_all(X.a[0], V.is_some(el))
            return V.choice([(c, V.Some(materialize(V.T('map', X.a[0], V.somev(el))))), (NOT(c), V.NONE)])
        return None
    return v
@model(IT + 'next')
def m_next(e, fr, a, st, reach, ln, ta):
    if a[0].op != 'mref': return None
    v = e.val(st, a[0])
    if v.op == 'lv':
        init = V.LVINFO[v][1]
        if init.op != 'iter' and not (init.op == 'agg' and rng(init)): return None
        if init.op == 'agg':
            r = rng(init)
            if r[0] is None or r[1] is None: return None
        X = coll(init)
        c = V.hasnext(V.iterable(X))
        s = dict(st); e.write(s, V.MREF[a[0]], V.T('lvn', v))
        return (1, V.choice([(c, V.Some(elem(X))), (NOT(c), V.NONE)]), s)
    if v.op == 'iter':
        X = coll(v)
        if X.op in ('map', 'filter'):
            Y = X.a[0] if X.op == 'map' else X
            s = dict(st); e.write(s, V.MREF[a[0]], V.T('iter', V.T('skip1', X)))
            if Y.op == 'filter':
                c = NOT(mk_all(Y, 0))
                return (1, V.choice([(c, V.Some(elem(X))), (NOT(c), V.NONE)]), s)
            if Y.op not in ('enum', 'zip', 'chain', 'rev', 'map'):
                c = nonempty(Y)
                return (1, V.choice([(c, V.Some(V.subst(X.a[1], {elem(Y): V.proj(Y, ('i', V.I(0))), 'all': 1}, {}))), (NOT(c), V.NONE)]), s)
        if X.op in ('map', 'filter', 'enum', 'zip', 'chain', 'rev', 'skip1'): return None
        c = nonempty(X)
        s = dict(st); e.write(s, V.MREF[a[0]], V.T('iter', V.mkslice(X, V.I(1), V.length(X))))
        return (1, V.choice([(c, V.Some(V.proj(X, ('i', V.I(0))))), (NOT(c), V.NONE)]), s)
    return None
@model(IT + 'last')
def m_last(e, fr, a, st, reach, ln, ta):
    X = coll(e.val(st, a[0]))
    if X.op == 'choice' or e.val(st, a[0]).op != 'iter': return None
    Y = X.a[0] if X.op == 'map' else X
    if Y.op == 'filter': c = NOT(mk_all(Y, 0)); return V.choice([(c, V.Some(V.T('last', X, elem(X)))), (NOT(c), V.NONE)])
    if Y.op in ('enum', 'zip', 'chain', 'rev', 'skip1', 'map', 'forever'): return None
    c = nonempty(Y); i = V.sub(V.length(Y), V.I(1))
    return V.choice([(c, V.Some(V.subst(X.a[1], {elem(Y): V.proj(Y, ('i', i)), 'all': 1}, {}) if X is not Y else V.proj(Y, ('i', i)))), (NOT(c), V.NONE)])
@model('core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def m_next_back(e, fr, a, st, reach, ln, ta):
    if a[0].op != 'mref': return None
    v = e.val(st, a[0])
    if v.op != 'iter': return None
    r = m_last(e, fr, [v], st, reach, ln, ta)
    if r is None: return None
    s = dict(st); X = coll(v)
    e.write(s, V.MREF[a[0]], V.T('iter', V.mkslice(X, V.I(0), V.sub(V.length(X), V.I(1)))) if X.op not in ('map', 'filter') else V.T('iter', V.T('skip1', X, V.T('str', 'back'))))
    return (1, r, s)
_it0 = V.iterable
def iterable(x):
    x = coll(x)
    return iterable(x.a[0]) if x.op == 'map' else x
V.iterable = iterable

def boolish(t): return t.op == 'cond' or t.op == 'int' and t.a[0] in (0, 1) or t is V.T('acc') or t.op == 'choice' and all(boolish(x) for _, x in V.alts(t))
def mk_fold(X, init, step):
    acc = V.T('acc')
    X = iterable(X)
    if step is acc: return init
    n = V.length(X)
    if V.is_int(init) and V.is_int(n) and n.a[0] <= 8 and X.op in ('be', 'bytes', 'arr', 'slice', 'seq'):
        w = V.WIDTH.get(V.elem(X))
        for i in range(n.a[0]):
            x = V.proj(X, ('i', V.I(i)))
            if w and not V.is_int(x): V.WIDTH.setdefault(x, w)
            init = V.subst(step, {acc: init, V.elem(X): x, 'all': 1}, {})
        return init
    if not V.contains(step, lambda t: t is acc):
        # only the last iteration counts
        z = V.c_eq(V.length(X), V.I(0))
        return V.choice([(z, init), (NOT(z), last_of(X, step))])
    pure = lambda ps: not any(V.contains(p, lambda t: t is acc) for p in ps)
    if boolish(init) and boolish(step):
        # acc | g(x): some element; acc & g(x): all of them
        f = V.cond(step); v = V.bvar(acc); n, = B.support(v)
        f1, f0 = V.B_restrict(f, n, 1), V.B_restrict(f, n, 0)
        nz = lambda g: not any(V.contains(V.ATOMS[x][1], lambda t: t is acc) for x in B.support(g))
        if f1 == 1 and nz(f0): return V.Bt(OR(V.cond(init), NOT(mk_all(X, NOT(f0)))))
        if f0 == 0 and nz(f1): return V.Bt(AND(V.cond(init), mk_all(X, f1)))
    if step.op == 'seq' and step.a and step.a[0] is V.T('s', acc) and pure(step.a[1:]):
        return V.mkseq(V.as_seq(init) + [V.T('s', flat(X, list(step.a[1:])))])
    if step.op == 'seq' and len(step.a) == 2 and step.a[1] is V.T('s', acc) and step.a[0].op == 'e' and pure(step.a[:1]):
        return V.mkseq([V.T('s', V.T('rev', flat(X, list(step.a[:1]))))] + V.as_seq(init))
    if step.op == 'choice':
        al = V.alts(step)
        if len(al) == 2 and any(x is acc for _, x in al):
            keep, = [(c, x) for c, x in al if x is not acc]
            x = keep[1]
            free = not any(V.contains(V.ATOMS[v][1], lambda t: t is acc) for v in B.support(keep[0]))
            if free and x.op == 'seq' and x.a and x.a[0] is V.T('s', acc) and pure(x.a[1:]):
                return V.mkseq(V.as_seq(init) + [V.T('s', flat(V.T('filter', X, V.Bt(keep[0])), list(x.a[1:])))])
    return V.T('fold', X, init, step)
V.mk_fold = mk_fold
def flat(X, parts):
    X = coll(X)
    if len(parts) == 1 and parts[0].op == 'e':
        v = parts[0].a[0]
        return materialize(V.T('map', X, v)) if v is not elem(X) else materialize(X)
    if X.op == 'map': X = X.a[0]
    if X.op == 'arr' and len(X.a) <= 64:
        el = V.elem(X)
        return V.mkseq([V.subst(p, {el: y, 'all': 1}, {}) for y in X.a for p in parts])
    return V.T('flat', X, V.mkseq(parts))
def last_of(X, t):
    if t.op == 'agg': return V.T('agg', *t.a[:3], *[last_of(X, x) for x in t.a[3:]])
    if t.op in ('int', 'str', 'bytes') : return t
    return V.T('last', X, t)

def hof(e, fr, X, clo, extra, st, reach, ln):
    """iterate a closure over elem(X); returns (list of (cond, value, state)), roots->lv"""
    roots = []
    for m in V.mrefs_in(e, st, clo): 
        r = V.MREF[m][0]
        if r not in roots: roots.append(r)
    lid = 'hof%d' % e.fid
    e.fid += 1
    sh = dict(st); lvs = {}
    for r in roots:
        lv = V.T('lv', lid, str(r) if r[0] == 'L' else 'T%d' % r[1].id)
        V.LVINFO[lv] = (lid, e.init_root(st, r)); lvs[r] = lv; sh[r] = lv
    outs = e.apply(fr, clo, extra + [elem(X)], sh, reach, ln)
    return outs, lvs
@model(IT + 'for_each')
def _(e, fr, a, st, reach, ln, ta):
    X = coll(e.val(st, a[0]))
    outs, lvs = hof(e, fr, X, e.val(st, a[1]), [], st, reach, ln)
    if not outs: return None
    tot, v, s = branches(e, outs)[0]
    fin = dict(s)
    for r, lv in lvs.items():
        step = s.get(r, lv)
        if step is lv: fin[r] = V.LVINFO[lv][1]
        else: fin[r] = V.mk_fold(X, V.LVINFO[lv][1], V.subst(step, {lv: V.T('acc')}))
    return (1, V.UNIT, fin)
@model(IT + 'try_for_each')
def _(e, fr, a, st, reach, ln, ta):
    X = coll(e.val(st, a[0]))
    outs, lvs = hof(e, fr, X, e.val(st, a[1]), [], st, reach, ln)
    if not outs: return None
    tot, v, s = branches(e, outs)[0]
    isr = len(ta) > 2 and ta[2][0] == 'adt' and ta[2][1] == V.RES
    okc = V.is_ok(v) if isr else V.is_some(v)
    A = mk_all(X, okc)
    fin = dict(s)
    for r, lv in lvs.items():
        step = s.get(r, lv)
        fin[r] = V.LVINFO[lv][1] if step is lv else V.mk_fold(X, V.LVINFO[lv][1], V.subst(step, {lv: V.T('acc')}))
    val = V.choice([(A, V.Ok(V.UNIT) if isr else V.Some(V.UNIT)), (NOT(A), V.Err(V.errv(v)) if isr else V.NONE)])
    return (1, val, fin)
@model(IT + 'fold')
def _(e, fr, a, st, reach, ln, ta):
    X = coll(e.val(st, a[0]))
    lv = V.T('lv', 'hofacc%d' % e.fid, 'acc'); e.fid += 1
    V.LVINFO[lv] = ('hofacc', a[1])
    outs, lvs = hof(e, fr, X, e.val(st, a[2]), [lv], st, reach, ln)
    if not outs: return None
    tot, v, s = branches(e, outs)[0]
    return (1, V.mk_fold(X, a[1], V.subst(v, {lv: V.T('acc')})), st)
@model('core::future::future::Future::poll')
def m_poll(e, fr, a, st, reach, ln, ta):
    v = e.val(st, a[0])
    if v.op == 'agg' and v.a[0].endswith('Pin'): v = e.val(st, v.a[3])
    P = 'core::task::poll::Poll'
    if v.op == 'coro' and v.a[0] in e.db.fns and v.a[0] not in e.stack and len(e.stack) < e.maxdepth:
        f = e.db.fns[v.a[0]]
        ne = len(e.events)
        e.stack.append(f['id'])
        rs = e.run_body(f, f, dict(e.envs[v.a[1]]), [v, V.T('cx')], st)
        e.stack.pop()
        for x in e.events[ne:]: x.cond = AND(reach, x.cond)
        return [(c, V.agg(P, 'Ready', ['0'], [t]), s) for c, t, s in rs]
    if v.op == 'choice' and any(x.op == 'coro' for _, x in V.alts(v)): pass
    s = dict(st)
    w = V.T('await', e.deepval(st, v))
    return (1, V.agg(P, 'Ready', ['0'], [w]), s)
@model('core::fmt::Arguments::new', 'core::fmt::Arguments::from_str', 'core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug', 'core::fmt::rt::Argument::new_lower_hex', 'alloc::fmt::format')
def m_fmt(e, fr, a, st, reach, ln, ta): return V.T('fmt')
