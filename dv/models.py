"""Models (assumed contracts) of standard-library functions and of trait objects."""
import z3, re
from .vals import *
from .strs import Str, EMPTY, slen, itoa
from .mir import base
from . import core
from .core import (I, B, UMAX, TOK, rtext, psource, pfile, mname, mcons, mcustom, isz, ival, bval, simp, And, Or, Not,
                   If, eq, Implies)

errstr = z3.Function('errstr', I, Str, I, I, Str)
repl = z3.Function('replace', Str, Str, Str, Str)
joinf = z3.Function('join', z3.ArraySort(I, Str), I, Str, Str)
splitn = z3.Function('splitn', Str, Str, I)
splita = z3.Function('splita', Str, Str, z3.ArraySort(I, Str))
parseok = z3.Function('parse_ok', Str, B)
parsev = z3.Function('parse_val', Str, I)
rxok = z3.Function('rx_ok', Str, B)
rxmk = z3.Function('rx_mk', Str, I)
rxm = z3.Function('rx_found', I, Str, B)
rxs = z3.Function('rx_start', I, Str, I)
rxe = z3.Function('rx_end', I, Str, I)
chrf = z3.Function('chr', Str, I, I)
chlen = z3.Function('chlen', I, I)
findf = z3.Function('str_find', Str, Str, I)
fchas = z3.Function('has_child', I, Str, B)
fcget = z3.Function('get_child', I, Str, I)
ffhas = z3.Function('has_child_rx', I, I, B)
ffget = z3.Function('get_child_rx', I, I, I)


class C:
    __slots__ = ('ft', 'vals', 'argtys', 'dty', 'name', 'rp')
    def __init__(s, ft, vals, argtys, dty):
        s.ft = ft; s.vals = vals; s.argtys = argtys; s.dty = dty
        s.rp = ft.get('rpath') or ft.get('path'); s.name = ft.get('name')


# ---------------------------------------------------------------- token cells
def srty(e): return e.p.ty('source_range::SourceRange')


def vecty(e, sub):
    key = ('vecty', sub)
    if key not in e.opq:
        for i, t in enumerate(e.T):
            if t['k'] == 'adt' and t['path'] == 'alloc::vec::Vec' and e.T[t['args'][0]]['s'].find(sub) >= 0 and e.scalar(t['args'][0]) == 'addr':
                e.opq[key] = i; break
    return e.opq[key]


def tokrc(e):
    if 'tokrc' not in e.opq:
        for i, t in enumerate(e.T):
            if t['k'] == 'adt' and e.istok(i): e.opq['tokrc'] = i; break
    return e.opq['tokrc']


def mapty(e):
    if 'mapty' not in e.opq:
        for i, t in enumerate(e.T):
            if t['k'] == 'adt' and t['path'].endswith('HashMap') and e.T[t['args'][1]]['s'] == 'alloc::string::String' and e.T[t['args'][0]]['s'] == 'alloc::string::String':
                e.opq['mapty'] = i; break
    return e.opq['mapty']


def tokfield(e, st, a, f):
    r = lambda l: e.hread(st, l, a)
    if f == 'captured': return Agg(srty(e), [r('cs'), r('ce')])
    if f == 'matched': return Agg(srty(e), [r('ms'), r('me')])
    if f == 'name': return r('name')
    if f == 'children':
        v = vecty(e, 'dyn token::Token')
        n = r('clen')
        return VecV(v, e.T[v]['args'][0], simp(n), [r('carr')])
    if f == 'attributes':
        m = mapty(e)
        return MapV(m, e.T[m]['args'][1], r('ahas'), [r('aval')])
    raise Unsupported('token field ' + f)


def set_tokfield(e, st, a, f, v):
    v = e.ex(v)
    w = lambda l, x: e.hwrite(st, l, a, x)
    if f in ('captured', 'matched'):
        w('cs' if f == 'captured' else 'ms', e.ex(v.fs[0])); w('ce' if f == 'captured' else 'me', e.ex(v.fs[1]))
    elif f == 'name': w('name', v)
    elif f == 'children': w('clen', v.len); w('carr', v.arrs[0])
    elif f == 'attributes': w('ahas', v.has); w('aval', v.arrs[0])
    else: raise Unsupported('token field ' + f)


def refresh(e, st, a, which):
    """standard tokens recompute the text when a range is set"""
    s, n, t = ('cs', 'ce', 'capv') if which == 'captured' else ('ms', 'me', 'matv')
    p = e.hread(st, 'parser', a)
    txt = e.S.touch(rtext(p, ival(e.hread(st, s, a)), ival(e.hread(st, n, a))))
    e.hwrite(st, t, a, If(e.hread(st, 'pin', a), e.hread(st, t, a), txt))


def tok_init(e, st, a, v):
    """leaves of a freshly allocated concrete token struct"""
    ty = v.ty; names = [n for n, _ in e.T[ty]['variants'][0]['fields']]
    f = dict(zip(names, v.fs))
    w = lambda l, x: e.hwrite(st, l, a, x)
    cr = e.ex(f['captured_range']); mr = e.ex(f['matched_range'])
    w('parser', e.ex(f['parser']).a)
    w('cs', e.ex(cr.fs[0])); w('ce', e.ex(cr.fs[1])); w('ms', e.ex(mr.fs[0])); w('me', e.ex(mr.fs[1]))
    w('name', e.ex(f['name']))
    val = e.ex(f['value'])
    w('vset', optset(val)); w('val', optval(e, val, EMPTY))
    w('capv', e.ex(f['captured_value'])); w('matv', e.ex(f['matched_value']))
    par = e.ex(f['parent'])
    w('pset', optset(par))
    pv = optval(e, par, None); w('parent', pv.a if pv is not None else z3.IntVal(0))
    ch = e.ex(f['children']); w('clen', ch.len); w('carr', ch.arrs[0])
    at = e.ex(f['attributes']); w('ahas', at.has); w('aval', at.arrs[0])
    fl = e.ex(f['flags']); w('flags', fl if isz(fl) else z3.BitVecVal(fl, 8))
    w('pin', e.T[ty]['path'].endswith('PinToken'))


def optset(v):
    if isinstance(v, Enum): return v.v == 1
    return eq(v.tag, 1)


def optval(e, v, dflt):
    if isinstance(v, Enum): return e.ex(v.fs[0]) if v.v == 1 else dflt
    return e.ex(e.payload(v, 1, 0))


def option(e, ty, cond, val):
    """Option<..> that is Some(val) iff cond"""
    cond = simp(cond) if isz(cond) else cond
    if cond is True: return Enum(ty, 1, [val])
    if cond is False: return Enum(ty, 0, [])
    return SEnum(ty, z3.If(cond, z3.IntVal(1), z3.IntVal(0)), 'elem', 0, 0, {(1, 0): val})


def result(e, ty, cond, ok, err):
    cond = simp(cond) if isz(cond) else cond
    if cond is True: return Enum(ty, 0, [ok])
    if cond is False: return Enum(ty, 1, [err])
    return SEnum(ty, z3.If(cond, z3.IntVal(0), z3.IntVal(1)), 'elem', 0, 0, {(0, 0): ok, (1, 0): err})


VALATTR = '__value'


def tok_value(e, st, a):
    r = lambda l: e.hread(st, l, a)
    k = e.S.lit('__value')
    cap = tok_capv(e, st, a)
    return If(z3.Select(r('ahas'), k), selattr(e, r('aval'), k), If(r('vset'), r('val'), cap))


def selattr(e, arr, k):
    t = z3.simplify(z3.Select(arr, k))
    return e.S.touch(t)


def tok_capv(e, st, a):
    r = lambda l: e.hread(st, l, a)
    k = e.S.lit('__value')
    return If(And(r('pin'), z3.Select(r('ahas'), k)), selattr(e, r('aval'), k), r('capv'))


def tok_matv(e, st, a):
    r = lambda l: e.hread(st, l, a)
    k = e.S.lit('__matched_value')
    return If(And(r('pin'), z3.Select(r('ahas'), k)), selattr(e, r('aval'), k), r('matv'))


def tok_call(e, st, a, name, c):
    """contract of the Token trait method `name` on the token at a (verified against both implementations in C13)"""
    r = lambda l: e.hread(st, l, a)
    w = lambda l, x: e.hwrite(st, l, a, x)
    T = lambda f: Ref(('T', a), (('tf', f),))
    arg = lambda i: e.ex(c.vals[i])
    e.stats['models']['Token::' + name] = e.stats['models'].get('Token::' + name, 0) + 1
    if name == 'get_parser': return RcV(r('parser'), e.T[c.dty]['args'][0])
    if name in ('get_captured_range', 'get_captured_range_mut'): return T('captured')
    if name in ('get_matched_range', 'get_matched_range_mut'): return T('matched')
    if name in ('set_captured_range', 'set_matched_range'):
        f = name[4:-6]
        set_tokfield(e, st, a, f, arg(1)); refresh(e, st, a, f)
        return Agg(c.dty, [])
    if name == 'get_name': return T('name')
    if name == 'set_name': w('name', sv(e, st, c.vals[1])); return Agg(c.dty, [])
    if name == 'get_parent': return option(e, c.dty, r('pset'), RcV(r('parent'), tokrc(e)))
    if name == 'set_parent':
        v = arg(1); w('pset', optset(v)); x = optval(e, v, None)
        if x is not None: w('parent', x.a)
        return Agg(c.dty, [])
    if name in ('get_children', 'get_children_mut'): return T('children')
    if name == 'set_children':
        v = arg(1); set_tokfield(e, st, a, 'children', v); return Agg(c.dty, [])
    if name == 'add_child':
        v = tokfield(e, st, a, 'children'); set_tokfield(e, st, a, 'children', vpush(e, st, v, arg(1))); return Agg(c.dty, [])
    if name == 'get_value': return Ref(('V', tok_value(e, st, a)))
    if name == 'set_value':
        v = sv(e, st, c.vals[1]); em = eq(v, EMPTY)
        w('vset', Not(em)); w('val', If(em, r('val'), v)); return Agg(c.dty, [])
    if name == 'get_captured_value': return Ref(('V', tok_capv(e, st, a)))
    if name == 'get_matched_value': return Ref(('V', tok_matv(e, st, a)))
    if name == 'set_captured_value': w('capv', sv(e, st, c.vals[1])); return Agg(c.dty, [])
    if name == 'set_matched_value': w('matv', sv(e, st, c.vals[1])); return Agg(c.dty, [])
    if name == 'get_attributes': return T('attributes')
    if name == 'get_attribute':
        k = sv(e, st, c.vals[1])
        return option(e, c.dty, simp(z3.Select(r('ahas'), k)), Ref(('V', selattr(e, r('aval'), k))))
    if name == 'has_attribute':
        return simp(z3.Select(r('ahas'), sv(e, st, c.vals[1])))
    if name == 'attribute_equals':
        k = sv(e, st, c.vals[1])
        return And(simp(z3.Select(r('ahas'), k)), eq(selattr(e, r('aval'), k), sv(e, st, c.vals[2])))
    if name == 'set_attribute':
        k = sv(e, st, c.vals[1]); v = sv(e, st, c.vals[2])
        old = option(e, c.dty, simp(z3.Select(r('ahas'), k)), selattr(e, r('aval'), k))
        w('aval', z3.Store(r('aval'), k, v)); w('ahas', z3.Store(r('ahas'), k, z3.BoolVal(True)))
        return old
    if name == 'get_flags': return r('flags')
    if name == 'set_flags': w('flags', bv(arg(1))); return Agg(c.dty, [])
    if name == 'enable_flags': w('flags', z3.simplify(r('flags') | bv(arg(1)))); return Agg(c.dty, [])
    if name == 'disable_flags': w('flags', z3.simplify(r('flags') & ~bv(arg(1)))); return Agg(c.dty, [])
    if name == 'flags_enabled': return simp((r('flags') & bv(arg(1))) != 0)
    if name == 'should_discard': return simp(r('pin'))
    if name in ('find_child', 'has_child'):
        e.c.find_child_ok(e, st, a)
        k = sv(e, st, c.vals[1])
        h = fchas(a, k)
        if name == 'has_child': return h
        g = fcget(a, k); e.setrng(g, 0, 0) if False else None
        e.keep.append(g)
        e.fact(z3.Implies(h, e.hread(st, 'name', g) == k))
        return option(e, c.dty, h, RcV(g, tokrc(e)))
    if name == 'find_child_fuzzy':
        e.c.find_child_ok(e, st, a)
        k = rxterm(e, st, c.vals[1])
        h = ffhas(a, k); g = ffget(a, k); e.keep.append(g)
        lits = rxalts(e, k)
        if lits: e.fact(z3.Implies(h, z3.Or(*[e.hread(st, 'name', g) == e.S.lit(x) for x in lits])))
        return option(e, c.dty, h, RcV(g, tokrc(e)))
    raise Unsupported('Token::' + name)


def bv(x): return x if isz(x) and z3.is_bv(x) else z3.BitVecVal(x, 8) if not isz(x) else z3.Int2BV(x, 8)


def der(e, st, v):
    """follow references to a value"""
    n = 0
    while True:
        v = e.ex(v)
        if isinstance(v, Ref): v = e.rd(st, v.root, v.path)
        elif isinstance(v, Ref): pass
        else: return v
        n += 1
        if n > 20: raise Unsupported('reference chain')


def sv(e, st, v):
    v = der(e, st, v)
    if isz(v) and v.sort() == Str: return v
    raise Unsupported('expected a string, got %r' % (v,))


# ---------------------------------------------------------------- vectors and maps
def nil(sort):
    return z3.Const('nil_' + str(sort), z3.ArraySort(I, sort))


def vnew(e, ty):
    et = e.T[ty]['args'][0]
    return VecV(ty, et, 0, [nil(e.ksort(k)) for p, k, t in e.leafs(et)])


def vpush(e, st, v, x):
    n = e.vecset(st, v, v.len, x)
    return VecV(v.ty, v.et, simp(ival(v.len) + 1), n.arrs)


def seqlen(e, st, v):
    v = der(e, st, v)
    if isinstance(v, VecV): return v.len
    if isinstance(v, Agg): return len(v.fs)
    if isz(v) and v.sort() == Str: return e.S.len(v)
    raise Unsupported('length of %r' % (v,))


def mnew(e, ty):
    t = e.T[ty]; vt = t['args'][1]
    return MapV(ty, vt, z3.K(Str, z3.BoolVal(False)),
                [z3.Const('mnil_%s' % e.ksort(k), z3.ArraySort(Str, e.ksort(k))) for p, k, tt in e.leafs(vt)])


def map_get(e, st, m, k):
    vals = [z3.simplify(z3.Select(a, k)) for a in m.arrs]
    lv = e.leafs(m.vt)
    for x, a, (p, kk, t) in zip(vals, m.arrs, lv): e.leafact(x, kk, t, a)
    return e.build(m.vt, lv, vals)


def map_insert(e, st, m, k, v):
    lv = e.leafs(m.vt)
    old = [z3.Select(a, k) for a in m.arrs]
    new = e.flat(st, m.vt, v, lv, old)
    return MapV(m.ty, m.vt, z3.Store(m.has, k, z3.BoolVal(True)), [z3.Store(a, k, x) for a, x in zip(m.arrs, new)])


def write(e, st, ref, v):
    e.wr(st, ref.root, ref.path, v)


# ---------------------------------------------------------------- call dispatch
def call(e, st, ft, vals, argtys, dty, dest, target):
    c = C(ft, vals, argtys, dty)
    r = e.c.override(e, st, c)
    if r is None: r = dispatch(e, st, c)
    if isinstance(r, tuple) and r[0] == 'inline':
        fn, args = r[1], r[2]
        if target is None:
            root, path = e.place(st, dest)
            return e.push(st, fn, args, (root, path), None)
        root, path = e.place(st, dest)
        return e.push(st, fn, args, (root, path), target)
    if isinstance(r, tuple) and r[0] == 'mixed':        # states that run elsewhere (and end there), states that return
        return r[1] + [e.finish(s2, dest, target, v) for s2, v in r[2]]
    if isinstance(r, list):
        out = []
        for s2, v in r: out.append(e.finish(s2, dest, target, v))
        return out
    return [e.finish(st, dest, target, r)]


def inline(e, st, c, fn, vals):
    if fn.closure:
        sf = vals[0]
        t1 = e.T[fn.locals[1]]
        if t1['k'] != 'ref' and isinstance(sf, Ref): sf = e.rd(st, sf.root, sf.path)
        if t1['k'] == 'ref' and not isinstance(e.ex(sf), Ref): sf = Ref(('V', sf))
        args = [sf]
        tup = e.ex(vals[1]) if len(vals) > 1 else Agg(None, [])
        if isinstance(tup, Ref): tup = e.ex(e.rd(st, tup.root, tup.path))
        args += list(tup.fs)
        return ('inline', fn, args)
    return ('inline', fn, vals)


def recv(e, st, v):
    """resolve the receiver of a method to (kind, data)"""
    n = 0
    while True:
        v0 = v
        if type(v) is SymV:
            t = e.T[e.strip(v.ty)]
            if t['k'] in ('param', 'dyn'): return v
            if t['k'] == 'adt' and t['path'] == 'alloc::boxed::Box': return v
        v = e.ex(v)
        if isinstance(v, Ref):
            if v.root[0] == 'T' and not v.path: return TokV(v.root[1])
            w = e.rd(st, v.root, v.path)
            if isinstance(w, DynV): return ('at', v, w)
            if isinstance(w, SymMatcher): return w
            v = w
        else: return v
        n += 1
        if n > 20: raise Unsupported('receiver')


def dispatch(e, st, c):
    ft = c.ft; tr = ft.get('trait'); name = c.name; kind = ft.get('kind')
    if tr == 'token::Token' and kind in ('virtual', 'unresolved', 'item'):
        v = recv(e, st, c.vals[0])
        if isinstance(v, TokV): return tok_call(e, st, v.a, name, c)
        if kind == 'unresolved' and e.c.selftok is not None: return tok_call(e, st, e.c.selftok, name, c)
    if tr == 'matcher::Matcher' and kind in ('virtual', 'unresolved'):
        return matcher_call(e, st, c)
    f = NATIVE.get(c.rp)
    if f is None:
        for pat, g in NATIVE_RE:
            if pat.fullmatch(c.rp): f = g; break
    if f is not None:
        e.stats['models'][c.rp] = e.stats['models'].get(c.rp, 0) + 1
        return f(e, st, c)
    fn = e.p.by.get(ft.get('inst'))
    if fn is not None:
        return inline(e, st, c, fn, c.vals)
    if tr in ('core::ops::function::Fn', 'core::ops::function::FnMut', 'core::ops::function::FnOnce'):
        return fncall(e, st, c)
    raise Unsupported('call of %s (%s)' % (c.rp, kind))


def fncall(e, st, c):
    f = c.vals[0]
    v = e.ex(f)
    while isinstance(v, Ref): v = e.ex(e.rd(st, v.root, v.path))
    if isinstance(v, DynV): v = v.val
    if isinstance(v, Agg) and e.T[v.ty]['k'] == 'closure':
        fn = e.p.by.get(e.T[v.ty]['inst'])
        if fn is None: raise Unsupported('closure body of ' + e.T[v.ty]['s'])
        return inline(e, st, c, fn, c.vals)
    r = e.c.on_fn(e, st, c, f, v)
    if r is None: raise Unsupported('call of an unknown function value')
    return r


def matcher_call(e, st, c):
    name = c.name
    v = recv(e, st, c.vals[0])
    if isinstance(v, tuple) and v[0] == 'at':
        _, ref, dv = v
        tn = e.T[dv.cty]['s']
        fn = e.p.impl.get(('matcher::Matcher', name, base(tn)))
        if fn is None or fn.self is None:
            fn = e.p.by.get('matcher::Matcher::%s<%s>#matcher::Matcher::%s' % (name, tn, name))
        if name == 'exec':
            return e.c.exec_event(e, st, c, dv, c.vals)
        if fn is None:
            if name == 'has_custom_name': return False
            if name == 'is_consuming': return True
            raise Unsupported('Matcher::%s on %s' % (name, tn))
        self_ref = Ref(ref.root, ref.path)
        # inside the concrete method the receiver is the struct itself
        st2 = st
        return ('inline', fn, [DynRef(ref)] + list(c.vals[1:])) if False else ('inline', fn, [Ref(ref.root, ref.path + (('dyn',),))] + list(c.vals[1:]))
    if isinstance(v, SymMatcher):
        a = v.a
        if name == 'get_name': return e.S.touch(mname(a))
        if name == 'is_consuming': return mcons(a)
        if name == 'has_custom_name': return mcustom(a)
        if name == 'exec': return e.c.exec_event(e, st, c, v, c.vals)
        r = e.c.on_matcher(e, st, c, v)
        if r is not None: return r
        if name == 'get_children':
            e.stats['kids'] = e.stats.get('kids', 0) + 1
            return SymV(c.dty, 'mkids%d' % e.stats['kids'], 0, st.epoch)
        if name == 'to_string': return e.S.touch(mstr(a))
    raise Unsupported('Matcher::%s on %r' % (name, v))


# ---------------------------------------------------------------- native models
NATIVE = {}
NATIVE_RE = []


def model(*names):
    def d(f):
        for n in names:
            if n.startswith('re:'): NATIVE_RE.append((re.compile(n[3:]), f))
            else: NATIVE[n] = f
        return f
    return d


@model('<alloc::rcs::rc::Rc<T, A> as core::ops::deref::Deref>::deref', '<alloc::rcs::rc::Rc<T, A> as core::convert::AsRef<T>>::as_ref')
def _(e, st, c):
    rc = der(e, st, c.vals[0])
    return e.rcref(rc)


@model('<alloc::rcs::rc::Rc<T, A> as core::clone::Clone>::clone', '<alloc::string::String as core::clone::Clone>::clone',
       '<alloc::vec::Vec<T, A> as core::clone::Clone>::clone', '<std::collections::hash::map::HashMap<K, V, S, A> as core::clone::Clone>::clone',
       '<core::option::Option<T> as core::clone::Clone>::clone', '<core::result::Result<T, E> as core::clone::Clone>::clone',
       '<alloc::boxed::Box<T, A> as core::clone::Clone>::clone', 'core::clone::Clone::clone',
       're:core::clone::impls::<impl core::clone::Clone for .*>::clone',
       '<core::ops::range::Range<Idx> as core::clone::Clone>::clone', '<core::ops::range::Range<A> as core::clone::Clone>::clone',
       'core::option::Option::<&T>::cloned', 'core::option::Option::<&T>::copied')
def clone(e, st, c):
    # every cloned type here has value semantics in the model (Rc clone = same address)
    v = c.vals[0]
    if 'option::Option::<&T>' in c.rp:
        v = e.ex(v)
        if isinstance(v, Enum): return Enum(c.dty, v.v, [der1(e, st, x) for x in v.fs])
        return option(e, c.dty, eq(v.tag, 1), der1(e, st, e.payload(v, 1, 0)))
    r = der1(e, st, v)
    t = e.ex(r)
    if type(r) is SymV and e.T[e.strip(r.ty)]['k'] == 'adt':
        p = e.T[e.strip(r.ty)]
    return r


def der1(e, st, v):
    if type(v) is SymV: v = e.ex(v)
    if isinstance(v, Ref): return e.rd(st, v.root, v.path)
    return v


@model('core::cell::RefCell::<T>::borrow', 'core::cell::RefCell::<T>::borrow_mut', 'core::cell::RefCell::<T>::get_mut')
def _(e, st, c):
    return c.vals[0]


@model('<core::cell::Ref<\'_, T> as core::ops::deref::Deref>::deref', '<core::cell::RefMut<\'_, T> as core::ops::deref::Deref>::deref',
       '<core::cell::RefMut<\'_, T> as core::ops::deref::DerefMut>::deref_mut')
def _(e, st, c):
    return der1(e, st, c.vals[0])


@model('core::cell::RefCell::<T>::new', 'core::cell::RefCell::<T>::into_inner', 'alloc::boxed::Box::<T>::new', 'core::hint::must_use',
       'core::mem::drop_id', '<I as core::iter::traits::collect::IntoIterator>::into_iter', 'core::convert::identity',
       '<T as core::convert::Into<U>>::into', '<T as core::convert::From<T>>::from',
       '<core::slice::iter::Iter<\'a, T> as core::iter::traits::iterator::Iterator>::by_ref')
def _(e, st, c):
    return c.vals[0]


@model('alloc::string::String::as_str', 'alloc::string::String::as_mut_str', '<alloc::string::String as core::ops::deref::Deref>::deref',
       '<alloc::string::String as core::convert::AsRef<str>>::as_ref', '<alloc::string::String as core::borrow::Borrow<str>>::borrow',
       '<T as alloc::string::ToString>::to_string', '<alloc::string::String as core::convert::From<&str>>::from',
       'alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned', 'alloc::str::<impl str>::to_owned', 'alloc::str::<impl str>::into_string',
       '<alloc::string::String as core::convert::From<&alloc::string::String>>::from', '<str as alloc::string::ToString>::to_string',
       '<alloc::string::String as core::convert::From<alloc::boxed::Box<str>>>::from', 'alloc::string::String::into_boxed_str',
       'core::str::<impl str>::as_str', '<str as core::convert::AsRef<str>>::as_ref', 'alloc::borrow::ToOwned::to_owned')
def tostring(e, st, c):
    v = der(e, st, c.vals[0])
    if isinstance(v, int) and ischar(e, c.argtys[0]): return e.S.lit(chr(v))
    return display(e, st, v, c)


def ischar(e, t):
    t = e.T[t]
    while t['k'] == 'ref': t = e.T[t['t']]
    return t['k'] == 'char'


def display(e, st, v, c=None):
    if isz(v) and v.sort() == Str: return v
    if isinstance(v, bool) or (isz(v) and z3.is_bool(v)): return If(v, e.S.lit('true'), e.S.lit('false'))
    if isinstance(v, int) or (isz(v) and v.sort() == I):
        w = e.charsrc.get(v.get_id()) if isz(v) and hasattr(e, 'charsrc') else None
        if w is not None: return e.S.sub(w[0], w[1], simp(ival(w[1]) + w[2]))
        if c is not None and len(c.argtys) > 0:
            pass
        return e.S.touch(itoa(ival(v)))
    if isinstance(v, Fmt): return fmtstr(e, st, v)
    return e.str('disp:' + re.sub(r'\s+', ' ', repr(v))[:200])


@model('alloc::rcs::rc::Rc::<T>::new')
def _(e, st, c):
    v = c.vals[0]; ty = e.T[c.dty]['args'][0]
    a = e.alloc(st)
    if e.istok(ty):
        x = e.ex(v)
        if isinstance(x, DynV):
            y = e.ex(x.val)
            tok_init(e, st, a, y)
            e.c.on_token_alloc(e, st, a)
            return RcV(a, ty)
        if isinstance(x, Agg):
            tok_init(e, st, a, x); e.c.on_token_alloc(e, st, a); return RcV(a, ty)
        raise Unsupported('Rc::new of %r' % (x,))
    st.cells[a.get_id()] = (a, v, ty)
    return RcV(a, ty)


@model('alloc::rcs::rc::Rc::<T, A>::ptr_eq')
def _(e, st, c):
    return eq(der(e, st, c.vals[0]).a, der(e, st, c.vals[1]).a)


# --- Option / Result helpers that take no closure
@model('<core::result::Result<T, E> as core::ops::try_trait::Try>::branch')
def _(e, st, c):
    v = e.ex(c.vals[0])
    rt = c.dty
    if isinstance(v, Enum):
        if v.v == 0: return Enum(rt, 0, [v.fs[0]])
        bt = e.T[rt]['variants'][1]['fields'][0][1]
        return Enum(rt, 1, [Enum(bt, 1, [v.fs[0]])])
    bt = e.T[rt]['variants'][1]['fields'][0][1]
    return SEnum(rt, v.tag, 'elem', 0, 0, {(0, 0): e.payload(v, 0, 0), (1, 0): Enum(bt, 1, [e.payload(v, 1, 0)])})


@model('<core::result::Result<T, F> as core::ops::try_trait::FromResidual<core::result::Result<!, E>>>::from_residual')
def _(e, st, c):
    v = e.ex(c.vals[0])
    if isinstance(v, Enum): return Enum(c.dty, 1, [v.fs[0]])
    return Enum(c.dty, 1, [e.payload(v, 1, 0)])


@model('<core::option::Option<T> as core::ops::try_trait::Try>::branch')
def _(e, st, c):
    v = e.ex(c.vals[0]); rt = c.dty
    bt = e.T[rt]['variants'][1]['fields'][0][1]
    # ControlFlow: Continue=0, Break=1 ; Option: None=0, Some=1
    if isinstance(v, Enum):
        return Enum(rt, 0, [v.fs[0]]) if v.v == 1 else Enum(rt, 1, [Enum(bt, 0, [])])
    return SEnum(rt, If(eq(v.tag, 1), 0, 1), 'elem', 0, 0, {(0, 0): e.payload(v, 1, 0), (1, 0): Enum(bt, 0, [])})


@model('<core::option::Option<T> as core::ops::try_trait::FromResidual<core::option::Option<core::convert::Infallible>>>::from_residual',
       're:<core::option::Option<T> as core::ops::try_trait::FromResidual.*>::from_residual')
def _(e, st, c):
    return Enum(c.dty, 0, [])


@model('<core::option::Option<T> as core::cmp::PartialEq>::eq', '<alloc::rcs::rc::Rc<T, A> as core::cmp::PartialEq>::eq_')
def _(e, st, c):
    return e.eqv(st, der1(e, st, c.vals[0]), der1(e, st, c.vals[1]))


# --- panics
@model('re:core::panicking::.*', 're:std::panicking::.*', 'core::option::unwrap_failed', 'core::option::expect_failed',
       're:core::result::unwrap_failed.*', 're:core::cell::panic_.*', 're:core::slice::index::.*fail.*', 're:core::str::slice_error_fail.*')
def panic(e, st, c):
    msg = c.rp.split('::')[-1]
    for v in c.vals:
        try:
            w = e.ex(v)
            if isinstance(w, Fmt): msg = e.S.text(fmtstr(e, st, w)) or msg
            elif isz(w) and w.sort() == Str: msg = e.S.text(w) or msg
        except Unsupported: pass
    e.by_case(st, lambda x: e.c.on_panic(e, x, msg))
    raise Infeasible()


# --- formatting
@model('core::fmt::Arguments::<\'a>::from_str', 're:core::fmt::Arguments::<\'a>::new_const.*', "core::fmt::Arguments::<'a>::from_str_nonconst")
def _(e, st, c):
    return Fmt(None, [der(e, st, c.vals[0])])


@model('core::fmt::Arguments::<\'a>::new')
def _(e, st, c):
    t = der(e, st, c.vals[0]); a = der(e, st, c.vals[1])
    args = [e.ex(x) for x in a.fs] if isinstance(a, Agg) else None
    return Fmt(t, args)


@model('core::fmt::rt::Argument::<\'_>::new_display', 're:core::fmt::rt::Argument::<\'_>::new_.*')
def _(e, st, c):
    try: v = der(e, st, c.vals[0])
    except Unsupported: v = None
    if v is None: return Fmt('arg', [Opq(None, z3.Int('fmtarg'))])
    if isz(v) and v.sort() == Str and not c.rp.endswith('::new_display'):
        u = z3.Function('shown_as_' + c.rp.split('::new_')[-1], Str, Str)(v)       # {:?} and the like: some other text
        return Fmt('arg', [e.S.touch(u)])
    how = c.rp.split('::new_')[-1]
    if isinstance(v, int) and not isinstance(v, bool) and how == 'display' and ischar(e, c.argtys[0]): return Fmt('arg', [e.S.lit(chr(v))])
    if how not in ('display', 'debug') or (how == 'debug' and ischar(e, c.argtys[0])): return Fmt('arg', [e.str('shown_as_%s:%r' % (how, v))])
    return Fmt('arg', [v])


def decode(lit):
    """template bytes of fmt::Arguments::new -> list of text | None(placeholder); None when not understood"""
    m = re.fullmatch(r'b"(.*)"', lit, re.S)
    if not m: return None
    try: b = eval('b"' + m.group(1) + '"')
    except Exception: return None
    out = []; i = 0
    while i < len(b):
        x = b[i]
        if x == 0: return out if i == len(b) - 1 else None
        if x < 0x80: out.append(b[i + 1:i + 1 + x].decode()); i += 1 + x
        elif x == 0xC0: out.append(None); i += 1
        elif x == 0x80:
            n = b[i + 1] | b[i + 2] << 8; out.append(b[i + 3:i + 3 + n].decode()); i += 3 + n
        else: return None
    return None


def fmtstr(e, st, f):
    if f.tpl is None: return f.args[0]
    if f.tpl == 'arg': return display(e, st, f.args[0])
    t = f.tpl
    parts = None
    if isinstance(t, Opq):
        nm = str(t.t)
        if nm.startswith('const:'): parts = decode(nm[6:])
    if parts is None or f.args is None: return e.str('fmt:' + str(t.t if isinstance(t, Opq) else t)[:80] + repr(f.args)[:200])
    r = EMPTY; k = 0
    for p in parts:
        if p is None:
            a = f.args[k]; k += 1
            x = fmtstr(e, st, a) if isinstance(a, Fmt) else display(e, st, a)
        else: x = e.S.lit(p)
        r = e.S.cat(r, x)
    return r


@model('alloc::fmt::format', 'alloc::fmt::format::format_inner')
def _(e, st, c):
    v = e.ex(c.vals[0])
    if isinstance(v, Fmt): return fmtstr(e, st, v)
    return e.str('fmt:?%d' % e.fresh_uid())


@model('std::io::stdio::_print', 'std::io::stdio::_eprint')
def _(e, st, c):
    return Agg(c.dty, [])


# --- strings
@model('core::str::<impl str>::len', 'alloc::string::String::len')
def _(e, st, c): return e.S.len(sv(e, st, c.vals[0]))


@model('core::str::<impl str>::is_empty', 'alloc::string::String::is_empty')
def _(e, st, c):
    n = e.S.len(sv(e, st, c.vals[0]))
    return n == 0 if isinstance(n, int) else simp(n == 0)


@model('alloc::string::String::new')
def _(e, st, c): return EMPTY


@model('alloc::string::String::push_str', '<alloc::string::String as core::ops::arith::AddAssign<&str>>::add_assign')
def _(e, st, c):
    r = e.ex(c.vals[0]); write(e, st, r, e.S.cat(sv(e, st, r), sv(e, st, c.vals[1]))); return Agg(c.dty, [])


@model('alloc::string::String::push')
def _(e, st, c):
    r = e.ex(c.vals[0]); ch = e.ex(c.vals[1])
    if isinstance(ch, int): t = e.S.lit(chr(ch))
    else:
        w = getattr(e, 'charsrc', {}).get(ch.get_id()) if isz(ch) else None
        if w is None: raise Unsupported('push of a character of unknown origin')
        t = e.S.sub(w[0], w[1], simp(ival(w[1]) + ival(w[2])))
    write(e, st, r, e.S.cat(sv(e, st, r), t)); return Agg(c.dty, [])


@model('<alloc::string::String as core::ops::arith::Add<&str>>::add')
def _(e, st, c): return e.S.cat(sv(e, st, c.vals[0]), sv(e, st, c.vals[1]))


@model('re:<(alloc::string::String|str|&.*) as core::cmp::PartialEq(<.*>)?>::(eq|ne)', 're:core::str::traits::<impl core::cmp::PartialEq for str>::(eq|ne)',
       're:core::cmp::impls::<impl core::cmp::PartialEq<&B> for &A>::(eq|ne)')
def streq(e, st, c):
    a = der(e, st, c.vals[0]); b = der(e, st, c.vals[1])
    if isz(a) and isz(b) and a.sort() == Str and b.sort() == Str: r = eq(a, b)
    else: r = e.eqv(st, a, b)
    return Not(r) if c.name == 'ne' else r


@model('core::str::<impl str>::starts_with')
def _(e, st, c):
    s = sv(e, st, c.vals[0]); p = der(e, st, c.vals[1])
    if not (isz(p) and p.sort() == Str): raise Unsupported('starts_with a non-string pattern')
    return simp(bval(e.S.starts_with(s, p)))


@model('core::str::<impl str>::ends_with')
def _(e, st, c):
    s = sv(e, st, c.vals[0]); p = der(e, st, c.vals[1])
    if not (isz(p) and p.sort() == Str): raise Unsupported('ends_with a non-string pattern')
    a, b = e.S.text(s), e.S.text(p)
    if a is not None and b is not None: return a.endswith(b)
    return endswith(e, s, p)


def endswith(e, s, p):
    r = endsf(s, p)
    if r.get_id() not in e.rng:
        e.rng[r.get_id()] = None; e.keep.append(r)
        n, m = e.S.len(s), e.S.len(p)
        at = simp(ival(n) - ival(m))
        t = e.S.sub(s, at, n)
        e.fact(r == z3.And(ival(m) <= ival(n), bval(eq(t, p)), bval(e.S.isb(s, at))))
        e.fact(z3.Implies(p == EMPTY, r))
    return r


@model('core::str::<impl str>::contains')
def _(e, st, c):
    s = sv(e, st, c.vals[0]); a = der(e, st, c.vals[1])
    if not (isz(a) and a.sort() == Str): raise Unsupported('contains pattern')
    x, y = e.S.text(s), e.S.text(a)
    if x is not None and y is not None: return y in x
    findfacts(e, s, a)
    return simp(findf(s, a) >= 0)


@model('core::str::<impl str>::strip_prefix', 'core::str::<impl str>::strip_suffix')
def _(e, st, c):
    s = sv(e, st, c.vals[0]); p = der(e, st, c.vals[1])
    if not (isz(p) and p.sort() == Str): raise Unsupported('strip pattern')
    n, m = e.S.len(s), e.S.len(p)
    if c.rp.endswith('prefix'):
        g = bval(e.S.starts_with(s, p)); r = e.S.sub(s, m, n)
    else:
        g = bval(endswith(e, s, p)); r = e.S.sub(s, 0, simp(ival(n) - ival(m)))
    return option(e, c.dty, simp(g), r)


@model('core::str::<impl str>::split_at')
def _(e, st, c):
    s = sv(e, st, c.vals[0]); k = e.ex(c.vals[1]); n = e.S.len(s)
    g = And(simp(ival(k) <= ival(n)), bval(e.S.isb(s, k)))
    if e.c.panics_ok: e.assume(st, g)
    else: e.oblige(st, 'split at a char boundary', g, 'panic')
    return Agg(c.dty, [e.S.sub(s, 0, k), e.S.sub(s, k, n)])


# string functions the code under proof has no use for: any result (an arbitrary function of the argument)
UF = {'trim': str.strip, 'trim_start': str.lstrip, 'trim_end': str.rstrip, 'to_lowercase': str.lower, 'to_uppercase': str.upper,
      'to_ascii_lowercase': str.lower, 'to_ascii_uppercase': str.upper, 'trim_left': str.lstrip, 'trim_right': str.rstrip}
UFN = {k: z3.Function('str_' + k, Str, Str) for k in UF}


@model('re:(core|alloc)::(str|string)::<impl str>::(trim|trim_start|trim_end|trim_left|trim_right|to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase)')
def _(e, st, c):
    s = sv(e, st, c.vals[0]); k = c.rp.split('::')[-1]
    t = e.S.text(s)
    if t is not None and t.isascii(): return e.S.lit(UF[k](t))
    r = UFN[k](s)
    if r.get_id() not in e.rng:
        e.rng[r.get_id()] = None; e.keep.append(r)
        if 'trim' in k or 'ascii' in k: e.fact(slen(r) <= slen(s))
        if 'ascii' in k: e.fact(slen(r) == slen(s))
    return e.S.touch(r)


@model('core::str::<impl str>::eq_ignore_ascii_case')
def _(e, st, c):
    a = sv(e, st, c.vals[0]); b = sv(e, st, c.vals[1])
    x, y = e.S.text(a), e.S.text(b)
    if x is not None and y is not None and x.isascii() and y.isascii(): return x.lower() == y.lower()
    r = cieq(a, b)
    if r.get_id() not in e.rng:
        e.rng[r.get_id()] = None; e.keep.append(r)
        e.fact(z3.Implies(a == b, r)); e.fact(z3.Implies(r, slen(a) == slen(b)))
    return r


cieq = z3.Function('str_cieq', Str, Str, B)
endsf = z3.Function('str_ends', Str, Str, B)
mstr = z3.Function('mstr', I, Str)


def rangeof(e, st, r, n):
    """(start, end, inclusive checks) of an index argument"""
    r = der(e, st, r)
    if isinstance(r, Agg):
        p = e.T[r.ty].get('path', '')
        f = [e.ex(x) for x in r.fs]
        if p.endswith('RangeFull'): return 0, n
        if p.endswith('RangeFrom'): return f[0], n
        if p.endswith('RangeToInclusive'): return 0, simp(ival(f[0]) + 1)
        if p.endswith('RangeTo'): return 0, f[0]
        if p.endswith('Range'): return f[0], f[1]
    raise Unsupported('index %r' % (r,))


@model('<alloc::string::String as core::ops::index::Index<I>>::index', 'core::str::traits::<impl core::ops::index::Index<I> for str>::index',
       're:<(alloc::string::String|str) as core::ops::index::Index<.*>>::index')
def stridx(e, st, c):
    s = sv(e, st, c.vals[0]); n = e.S.len(s)
    a, b = rangeof(e, st, c.vals[1], n)
    g = And(simp(ival(a) <= ival(b)), simp(ival(b) <= ival(n)))
    if e.c.panics_ok:
        e.assume(st, And(g, e.S.isb(s, a), e.S.isb(s, b)))
    else:
        e.oblige(st, 'slice bounds', g, 'panic')
        e.oblige(st, 'slice char boundary', And(bval(e.S.isb(s, a)), bval(e.S.isb(s, b))), 'panic')
    return e.S.sub(s, a, b)


@model('core::str::<impl str>::get')
def _(e, st, c):
    s = sv(e, st, c.vals[0]); n = e.S.len(s)
    a, b = rangeof(e, st, c.vals[1], n)
    g = And(simp(ival(a) <= ival(b)), simp(ival(b) <= ival(n)), e.S.isb(s, a), e.S.isb(s, b))
    return option(e, c.dty, g, e.S.sub(s, a, b))


@model('core::str::<impl str>::is_char_boundary')
def _(e, st, c):
    s = sv(e, st, c.vals[0]); i = e.ex(c.vals[1])
    return And(simp(ival(i) <= ival(e.S.len(s))), e.S.isb(s, i))


@model('alloc::str::<impl str>::replace')
def _(e, st, c):
    s = sv(e, st, c.vals[0]); a = der(e, st, c.vals[1]); b = sv(e, st, c.vals[2])
    if not (isz(a) and a.sort() == Str): raise Unsupported('replace pattern')
    return e.S.touch(repl(s, a, b))


@model('core::str::<impl str>::find')
def _(e, st, c):
    s = sv(e, st, c.vals[0]); a = der(e, st, c.vals[1])
    if not (isz(a) and a.sort() == Str): raise Unsupported('find pattern')
    return strfind(e, st, c.dty, s, a)


def strfind(e, st, dty, s, a):
    r = findfacts(e, s, a)
    return option(e, dty, simp(r >= 0), r)


def findfacts(e, s, a):
    r = findf(s, a)
    if r.get_id() not in e.rng:
        e.rng[r.get_id()] = None; e.keep.append(r)
        n = slen(s)
        e.fact(r >= -1); e.fact(z3.Implies(r >= 0, z3.And(r + slen(a) <= n)))
        e.fact(z3.Implies(a == EMPTY, r == 0))
        e.fact(z3.Implies(r >= 0, z3.And(bval(e.S.isb(s, r)), bval(e.S.isb(s, r + slen(a))))))
        e.fact(z3.Implies(r >= 0, e.S.sub(s, r, r + slen(a)) == a))
    return r


@model('alloc::slice::<impl [T]>::join')
def _(e, st, c):
    v = der(e, st, c.vals[0]); sep = sv(e, st, c.vals[1])
    return e.c.join(e, st, v, sep)


@model('core::str::<impl str>::split')
def _(e, st, c): return SplitV(sv(e, st, c.vals[0]), sv(e, st, c.vals[1]))


@model('core::str::<impl str>::parse')
def _(e, st, c):
    s = sv(e, st, c.vals[0]); t = e.T[e.T[c.dty]['args'][0]]
    if t.get('n') != 'usize': raise Unsupported('parse ' + t['s'])
    ok = parseok(s); v = parsev(s)
    if v.get_id() not in e.rng:
        e.rng[v.get_id()] = None; e.keep.append(v); e.fact(v >= 0); e.fact(v <= UMAX)
    return result(e, c.dty, ok, v, Opq(e.T[c.dty]['args'][1], z3.Int('parseerr')))


@model('core::str::<impl str>::chars', 'core::str::<impl str>::char_indices')
def _(e, st, c):
    s = sv(e, st, c.vals[0])
    return It(c.dty, 'charix' if c.rp.endswith('indices') else 'chars', s, 0, e.S.len(s))


@model('<core::str::iter::Chars<\'a> as core::iter::traits::iterator::Iterator>::next', '<core::str::iter::CharIndices<\'a> as core::iter::traits::iterator::Iterator>::next')
def _(e, st, c):
    r = e.ex(c.vals[0]); it = der(e, st, r)
    s = it.src
    more = simp(ival(it.i) < ival(it.n))
    out = []
    for s2, b in fork(e, st, more):
        if not b: out.append((s2, Enum(c.dty, 0, []))); continue
        w = e.S.clen(s, it.i)
        rt = e.S.root(s)
        ch = chrf(rt[0], z3.simplify(rt[1] + ival(it.i))) if rt else chrf(s, ival(it.i))
        if not hasattr(e, 'charsrc'): e.charsrc = {}
        if ch.get_id() not in e.charsrc:
            e.charsrc[ch.get_id()] = (s, it.i, w); e.keep.append(ch)
            e.fact(ch >= 0); e.fact(ch <= 0x10ffff); e.fact(chlen(ch) == w)
        write(e, s2, r, It(it.ty, it.kind, s, simp(ival(it.i) + w), it.n))
        out.append((s2, Enum(c.dty, 1, [ch if it.kind == 'chars' else Agg(e.T[c.dty]['args'][0], [it.i, ch])])))
    return out


@model('core::char::methods::<impl char>::len_utf8')
def _(e, st, c):
    v = e.ex(c.vals[0])
    if isinstance(v, int): return 1 if v < 0x80 else 2 if v < 0x800 else 3 if v < 0x10000 else 4
    return chlen(v)


def fork(e, st, cond):
    cond = simp(cond) if isz(cond) else cond
    d = e.decide(st, cond)
    if d is not None:
        if isz(cond): e.assume(st, cond if d else Not(cond))
        return [(st, d)]
    a = st.copy()
    e.assume(a, cond); e.assume(st, Not(cond))
    e.stats['paths'] += 1
    return [(a, True), (st, False)]


# --- numbers
@model('core::cmp::min', 're:core::cmp::impls::<impl core::cmp::Ord for usize>::min')
def _(e, st, c):
    a = e.ex(c.vals[0]); b = e.ex(c.vals[1])
    return simp(If(simp(ival(a) <= ival(b)), a, b))


@model('core::cmp::max', 're:core::cmp::impls::<impl core::cmp::Ord for usize>::max')
def _(e, st, c):
    a = e.ex(c.vals[0]); b = e.ex(c.vals[1])
    return simp(If(simp(ival(a) >= ival(b)), a, b))


def bounds(e, c, i=0):
    t = e.T[c.argtys[i]]
    b, sg = core.BITS[t['n']]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if sg else (0, (1 << b) - 1)


@model('re:core::num::<impl [ui](size|64|32)>::saturating_(add|sub)')
def _(e, st, c):
    a, b = ival(e.ex(c.vals[0])), ival(e.ex(c.vals[1])); lo, hi = bounds(e, c)
    r = a + b if c.name.endswith('add') else a - b
    return simp(z3.If(r < lo, lo, z3.If(r > hi, hi, r)))


@model('re:core::num::<impl [ui](size|64|32)>::wrapping_(add|sub)')
def _(e, st, c):
    a, b = ival(e.ex(c.vals[0])), ival(e.ex(c.vals[1])); lo, hi = bounds(e, c)
    r = a + b if c.name.endswith('add') else a - b
    m = hi - lo + 1
    return simp(z3.If(r < lo, r + m, z3.If(r > hi, r - m, r)))


@model('re:core::num::<impl [ui](size|64|32)>::checked_(add|sub)')
def _(e, st, c):
    a, b = ival(e.ex(c.vals[0])), ival(e.ex(c.vals[1])); lo, hi = bounds(e, c)
    r = simp(a + b if c.name.endswith('add') else a - b)
    return option(e, c.dty, And(simp(ival(r) >= lo), simp(ival(r) <= hi)), r)


@model('core::num::<impl isize>::unsigned_abs', 'core::num::<impl isize>::abs')
def _(e, st, c):
    a = ival(e.ex(c.vals[0]))
    return simp(z3.If(a < 0, -a, a))


@model('re:core::num::<impl usize>::(checked|saturating|wrapping)_add_signed')
def _(e, st, c):
    a, b = ival(e.ex(c.vals[0])), ival(e.ex(c.vals[1])); r = a + b
    if 'checked' in c.rp: return option(e, c.dty, And(r >= 0, r <= UMAX), r)
    if 'saturating' in c.rp: return simp(z3.If(r < 0, 0, z3.If(r > UMAX, UMAX, r)))
    return simp(z3.If(r < 0, r + UMAX + 1, z3.If(r > UMAX, r - UMAX - 1, r)))


@model('re:core::cmp::impls::<impl core::cmp::Partial(Eq|Ord) for (usize|isize|u8|char|bool)>::(eq|ne|lt|le|gt|ge)')
def _(e, st, c):
    a = der(e, st, c.vals[0]); b = der(e, st, c.vals[1])
    o = {'eq': 'Eq', 'ne': 'Ne', 'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[c.name]
    return e.binop(st, o, a, b, None, c.dty)


# --- vectors
@model('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity')
def _(e, st, c): return vnew(e, c.dty)


@model('re:<alloc::vec::Vec<T> as core::default::Default>::default')
def _(e, st, c): return vnew(e, c.dty)


@model('alloc::vec::Vec::<T, A>::push')
def _(e, st, c):
    r = e.ex(c.vals[0]); v = der(e, st, r)
    write(e, st, r, vpush(e, st, v, c.vals[1])); return Agg(c.dty, [])


@model('alloc::vec::Vec::<T, A>::pop')
def _(e, st, c):
    r = e.ex(c.vals[0]); v = der(e, st, r)
    n = ival(v.len); pos = simp(n > 0)
    last = simp(n - 1)
    el = e.elem(st, v, last if isz(last) or last >= 0 else 0)
    write(e, st, r, VecV(v.ty, v.et, simp(If(pos, n - 1, n)), v.arrs))
    return option(e, c.dty, pos, el)


def vderived(e, st, v, n, f):
    """a vector of n elements, element j being f(leaf array number, j)"""
    out = []
    j = z3.Int('vd_j')
    for i, a in enumerate(v.arrs):
        b = z3.Const('vd%d_%d' % (e.fresh_uid(), i), a.sort()); e.keep.append(b); e.arrhi[b.get_id()] = st.epoch
        x = f(i, j)
        e.fact(z3.ForAll([j], z3.Select(b, j) == x, patterns=[z3.Select(b, j)]))
        out.append(b)
    return VecV(v.ty, v.et, n, out)


def inrange(e, st, what, g):
    if e.c.panics_ok: e.assume(st, g)
    else: e.oblige(st, what, g, 'panic')


@model('alloc::vec::Vec::<T, A>::insert')
def _(e, st, c):
    r = e.ex(c.vals[0]); v = der(e, st, r); k = ival(e.ex(c.vals[1])); n = ival(v.len)
    inrange(e, st, 'insertion index', simp(k <= n))
    old = [z3.Select(a, k) for a in v.arrs]
    new = e.flat(st, v.et, c.vals[2], e.leafs(v.et), old)
    write(e, st, r, vderived(e, st, v, simp(n + 1), lambda i, j: z3.If(j < k, z3.Select(v.arrs[i], j), z3.If(j == k, new[i], z3.Select(v.arrs[i], j - 1)))))
    return Agg(c.dty, [])


@model('alloc::vec::Vec::<T, A>::remove', 'alloc::vec::Vec::<T, A>::swap_remove')
def _(e, st, c):
    r = e.ex(c.vals[0]); v = der(e, st, r); k = ival(e.ex(c.vals[1])); n = ival(v.len)
    inrange(e, st, 'removal index', simp(k < n))
    el = e.elem(st, v, simp(k))
    if 'swap' in c.rp: f = lambda i, j: z3.If(j == k, z3.Select(v.arrs[i], n - 1), z3.Select(v.arrs[i], j))
    else: f = lambda i, j: z3.If(j < k, z3.Select(v.arrs[i], j), z3.Select(v.arrs[i], j + 1))
    write(e, st, r, vderived(e, st, v, simp(n - 1), f))
    return el


@model('alloc::vec::Vec::<T, A>::append', 'alloc::vec::Vec::<T, A>::extend_from_slice')
def _(e, st, c):
    r = e.ex(c.vals[0]); v = der(e, st, r); n = ival(v.len)
    w = der(e, st, c.vals[1])
    if isinstance(w, Agg):
        for x in w.fs: v = vpush(e, st, v, x)
        write(e, st, r, v); return Agg(c.dty, [])
    if not isinstance(w, VecV): raise Unsupported('append of %r' % (w,))
    if isinstance(w.len, int) and w.len <= 4:
        for k in range(w.len): v = vpush(e, st, v, e.elem(st, w, k))
        write(e, st, r, v)
    else: write(e, st, r, vderived(e, st, v, simp(n + ival(w.len)), lambda i, j: z3.If(j < n, z3.Select(v.arrs[i], j), z3.Select(w.arrs[i], j - n))))
    if c.rp.endswith('append'): write(e, st, e.ex(c.vals[1]), vnew(e, w.ty))
    return Agg(c.dty, [])


@model('core::slice::<impl [T]>::reverse')
def _(e, st, c):
    r = seqref(e, st, c.vals[0]); v = der(e, st, r); n = ival(v.len)
    write(e, st, r, vderived(e, st, v, v.len, lambda i, j: z3.Select(v.arrs[i], n - 1 - j))); return Agg(c.dty, [])


@model('core::slice::<impl [T]>::swap')
def _(e, st, c):
    r = seqref(e, st, c.vals[0]); v = der(e, st, r); n = ival(v.len)
    a, b = ival(e.ex(c.vals[1])), ival(e.ex(c.vals[2]))
    inrange(e, st, 'swap indices', simp(z3.And(a < n, b < n)))
    x, y = e.elem(st, v, simp(a)), e.elem(st, v, simp(b))
    v = e.vecset(st, v, simp(a), y); v = e.vecset(st, v, simp(b), x)
    write(e, st, r, v); return Agg(c.dty, [])


@model('alloc::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len')
def _(e, st, c): return seqlen(e, st, c.vals[0])


@model('alloc::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty')
def _(e, st, c):
    n = seqlen(e, st, c.vals[0])
    return n == 0 if isinstance(n, int) else simp(n == 0)


@model('alloc::vec::Vec::<T, A>::clear')
def _(e, st, c):
    r = e.ex(c.vals[0]); v = der(e, st, r)
    write(e, st, r, VecV(v.ty, v.et, 0, v.arrs)); return Agg(c.dty, [])


@model('alloc::vec::Vec::<T, A>::drain')
def _(e, st, c):
    a = e.ex(c.vals[1])
    if not (isinstance(a, Agg) and e.T[a.ty].get('path', '').endswith('RangeFull')): raise Unsupported('drain of a part')
    r = e.ex(c.vals[0]); v = der(e, st, r)
    write(e, st, r, VecV(v.ty, v.et, 0, v.arrs))
    return It(c.dty, 'val', v, 0, v.len)


@model('alloc::vec::Vec::<T, A>::truncate')
def _(e, st, c):
    r = e.ex(c.vals[0]); v = der(e, st, r); n = e.ex(c.vals[1])
    write(e, st, r, VecV(v.ty, v.et, simp(If(simp(ival(n) < ival(v.len)), n, v.len)), v.arrs)); return Agg(c.dty, [])


def seqref(e, st, v):
    """reference to a sequence place"""
    v = e.ex(v)
    while isinstance(v, Ref):
        w = e.rd(st, v.root, v.path)
        if isinstance(e.ex(w), Ref): v = e.ex(w)
        else: return v
    return Ref(('V', v))


@model('<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index', '<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut',
       're:core::slice::index::<impl core::ops::index::Index(Mut)?<I> for \\[T\\]>::index(_mut)?')
def _(e, st, c):
    r = seqref(e, st, c.vals[0]); i = e.ex(c.vals[1])
    if isinstance(i, Agg): raise Unsupported('slice of a vector')
    n = seqlen(e, st, r)
    g = simp(ival(i) < ival(n))
    if e.c.panics_ok: e.assume(st, g)
    else: e.oblige(st, 'index in bounds', g, 'panic')
    return Ref(r.root, r.path + (('i', i),))


@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def _(e, st, c):
    r = seqref(e, st, c.vals[0]); i = e.ex(c.vals[1])
    if isinstance(i, Agg): raise Unsupported('get of a sub-slice')
    return option(e, c.dty, simp(ival(i) < ival(seqlen(e, st, r))), Ref(r.root, r.path + (('i', i),)))


@model('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last_mut', 'core::slice::<impl [T]>::first_mut')
def _(e, st, c):
    r = seqref(e, st, c.vals[0]); n = seqlen(e, st, r)
    i = simp(ival(n) - 1) if 'last' in c.name else 0
    return option(e, c.dty, simp(ival(n) > 0), Ref(r.root, r.path + (('i', i),)))


@model('<&\'a alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter',
       '<&\'a mut alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter',
       'core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut',
       're:core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &\'a (mut )?\\[T\\]>::into_iter')
def _(e, st, c):
    r = seqref(e, st, c.vals[0])
    return It(c.dty, 'ref', r, 0, seqlen(e, st, r))


@model('<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter')
def _(e, st, c):
    v = der(e, st, c.vals[0])
    return It(c.dty, 'val', v, 0, v.len)


@model('re:<\\[T; N\\] as core::iter::traits::collect::IntoIterator>::into_iter', 're:core::array::iter::<impl core::iter::traits::collect::IntoIterator for \\[T; N\\]>::into_iter')
def _(e, st, c):
    v = der(e, st, c.vals[0]); return It(c.dty, 'val', v, 0, len(v.fs))


ADAPT = ('rev', 'enum')


@model('core::iter::traits::iterator::Iterator::rev')
def _(e, st, c):
    it = e.ex(c.vals[0])
    if isinstance(it, It) and it.kind in ('ref', 'val', 'map'): return It(c.dty, it.kind + '-rev', it.src, it.i, it.n)
    if isinstance(it, It) and it.kind in ('ref-enum', 'val-enum'): return It(c.dty, it.kind + '-rev', it.src, it.i, it.n, it.extra)
    raise Unsupported('rev of %r' % (it,))


@model('core::iter::traits::iterator::Iterator::enumerate')
def _(e, st, c):
    it = e.ex(c.vals[0])
    if isinstance(it, It) and it.kind in ('ref', 'val', 'map'): return It(c.dty, it.kind + '-enum', it.src, it.i, it.n, it.i)
    if isinstance(it, It) and it.kind in ('ref-rev', 'val-rev'): return It(c.dty, it.kind + '-enum', it.src, it.i, it.n, it.n)
    raise Unsupported('enumerate')


@model('core::iter::traits::iterator::Iterator::skip')
def _(e, st, c):
    it = e.ex(c.vals[0]); k = e.ex(c.vals[1])
    if isinstance(it, It) and it.kind in ('ref', 'val'):
        n = simp(ival(it.i) + ival(k))
        return It(c.dty, it.kind, it.src, simp(If(simp(ival(n) > ival(it.n)), it.n, n)), it.n)
    if isinstance(it, It) and it.kind in ('ref-rev', 'val-rev'):
        n = simp(ival(it.n) - ival(k))
        return It(c.dty, it.kind, it.src, it.i, simp(If(simp(ival(n) < ival(it.i)), it.i, n)))
    if isinstance(it, It) and it.kind in ('ref-enum', 'val-enum'):
        n = simp(ival(it.i) + ival(k))
        return It(c.dty, it.kind, it.src, simp(If(simp(ival(n) > ival(it.n)), it.n, n)), it.n, it.extra)
    raise Unsupported('skip')


@model('core::iter::traits::iterator::Iterator::take')
def _(e, st, c):
    it = e.ex(c.vals[0]); k = e.ex(c.vals[1])
    if isinstance(it, It) and it.kind in ('ref', 'val', 'ref-enum', 'val-enum'):
        n = simp(ival(it.i) + ival(k))
        return It(c.dty, it.kind, it.src, it.i, simp(If(simp(ival(n) < ival(it.n)), n, it.n)), it.extra)
    if isinstance(it, It) and it.kind in ('ref-rev', 'val-rev'):
        n = simp(ival(it.n) - ival(k))
        return It(c.dty, it.kind, it.src, simp(If(simp(ival(n) > ival(it.i)), n, it.i)), it.n, it.extra)
    raise Unsupported('take')


@model('re:<core::slice::iter::Iter(Mut)?<\'a, T> as core::iter::traits::iterator::Iterator>::next',
       '<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::next',
       're:<alloc::vec::drain::Drain<.*> as core::iter::traits::iterator::Iterator>::next',
       '<core::iter::adapters::rev::Rev<I> as core::iter::traits::iterator::Iterator>::next',
       '<core::iter::adapters::enumerate::Enumerate<I> as core::iter::traits::iterator::Iterator>::next',
       '<core::iter::adapters::skip::Skip<I> as core::iter::traits::iterator::Iterator>::next',
       '<core::iter::adapters::take::Take<I> as core::iter::traits::iterator::Iterator>::next',
       "re:<std::collections::hash::map::(Iter|IntoIter|Keys|Values)<.*> as core::iter::traits::iterator::Iterator>::next",
       're:<core::array::iter::IntoIter<T, N> as core::iter::traits::iterator::Iterator>::next')
def itnext(e, st, c):
    r = e.ex(c.vals[0]); it = der(e, st, r)
    if not isinstance(it, It): raise Unsupported('next of %r' % (it,))
    more = simp(ival(it.i) < ival(it.n))
    out = []
    ks = it.kind.split('-'); k = ks[0]; rev = 'rev' in ks; en = 'enum' in ks
    for s2, b in fork(e, st, more):
        if not b: out.append((s2, Enum(c.dty, 0, []))); continue
        idx = simp(ival(it.n) - 1) if rev else it.i
        if k in MAPK: x = mapitem(e, s2, k, it, idx, c.dty)
        elif k == 'ref': x = Ref(it.src.root, it.src.path + (('i', idx),))
        else: x = e.elem(s2, it.src, idx) if isinstance(it.src, VecV) else it.src.fs[idx]
        if en: x = Agg(e.T[c.dty]['args'][0], [simp(ival(it.extra) - ival(it.n)) if ks[1] == 'rev' else simp(ival(idx) - ival(it.extra)), x])
        write(e, s2, r, It(it.ty, it.kind, it.src, it.i if rev else simp(ival(it.i) + 1), idx if rev else it.n, it.extra))
        out.append((s2, Enum(c.dty, 1, [x])))
    return out


@model('core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::Range<A>>::next')
def rangenext(e, st, c):
    r = e.ex(c.vals[0]); v = der(e, st, r)
    a, b = e.ex(v.fs[0]), e.ex(v.fs[1])
    out = []
    for s2, m in fork(e, st, simp(ival(a) < ival(b))):
        if not m: out.append((s2, Enum(c.dty, 0, []))); continue
        write(e, s2, r, Agg(v.ty, [simp(ival(a) + 1), b]))
        out.append((s2, Enum(c.dty, 1, [a])))
    return out


@model('core::iter::traits::iterator::Iterator::collect', 're:<alloc::vec::Vec<T> as core::iter::traits::collect::FromIterator<T>>::from_iter')
def _(e, st, c):
    it = e.ex(c.vals[0])
    if isinstance(it, SplitV):
        v = vnewty = c.dty
        et = e.T[c.dty]['args'][0]
        n = splitn(it.s, it.sep); arr = splita(it.s, it.sep)
        if n.get_id() not in e.rng:
            e.rng[n.get_id()] = None; e.keep += [n, arr]
            e.fact(n >= 1); e.fact(n <= 2 ** 62)
            e.c.split_facts(e, st, it.s, it.sep, n, arr)
        return VecV(c.dty, et, n, [arr])
    if isinstance(it, It) and it.kind == 'val' and it.i == 0 and isinstance(it.src, VecV): return it.src
    raise Unsupported('collect of %r' % (it,))


@model('alloc::boxed::Box::<T>::new_uninit')
def _(e, st, c):
    k = (-2, len([x for x in st.loc if x[0] == -2]))
    st.loc[k] = ('uninit',)
    return Ref(('L',) + k)


# vec![..] literals: new_uninit box written through a raw pointer, then box_assume_init_into_vec_unsafe
@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def _(e, st, c):
    v = e.ex(c.vals[0])
    if isinstance(v, Ref): v = e.ex(e.rd(st, v.root, v.path))
    while isinstance(v, Agg) and e.T[v.ty]['k'] != 'array' and len(v.fs) == 1: v = e.ex(v.fs[0])
    if not isinstance(v, Agg): raise Unsupported('vec! of %r' % (v,))
    out = vnew(e, c.dty)
    for x in v.fs: out = vpush(e, st, out, x)
    return out


@model('alloc::slice::<impl [T]>::into_vec', 'alloc::slice::<impl [T]>::to_vec')
def _(e, st, c):
    v = der(e, st, c.vals[0])
    if isinstance(v, VecV): return VecV(c.dty, v.et, v.len, v.arrs)
    out = vnew(e, c.dty)
    for x in v.fs: out = vpush(e, st, out, x)
    return out


@model('<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref', '<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut', 'alloc::vec::Vec::<T, A>::as_slice')
def _(e, st, c): return seqref(e, st, c.vals[0])


@model('<alloc::boxed::Box<T, A> as core::ops::drop::Drop>::drop')
def _(e, st, c): return Agg(c.dty, [])


# --- maps
@model('re:std::collections::hash::map::HashMap::<K, V>::(new|with_capacity)')
def _(e, st, c): return mnew(e, c.dty)


@model('std::collections::hash::map::HashMap::<K, V, S, A>::insert')
def _(e, st, c):
    r = e.ex(c.vals[0]); m = der(e, st, r); k = sv(e, st, c.vals[1])
    old = option(e, c.dty, simp(z3.Select(m.has, k)), map_get(e, st, m, k))
    write(e, st, r, map_insert(e, st, m, k, c.vals[2]))
    return old


@model('std::collections::hash::map::HashMap::<K, V, S, A>::get')
def _(e, st, c):
    m = der(e, st, c.vals[0]); k = sv(e, st, c.vals[1])
    r = e.ex(c.vals[0])
    return option(e, c.dty, simp(z3.Select(m.has, k)), Ref(('V', map_get(e, st, m, k))))


@model('std::collections::hash::map::HashMap::<K, V, S, A>::contains_key')
def _(e, st, c):
    m = der(e, st, c.vals[0]); return simp(z3.Select(m.has, sv(e, st, c.vals[1])))


@model('std::collections::hash::map::HashMap::<K, V, S, A>::remove')
def _(e, st, c):
    r = e.ex(c.vals[0]); m = der(e, st, r); k = sv(e, st, c.vals[1])
    old = option(e, c.dty, simp(z3.Select(m.has, k)), map_get(e, st, m, k))
    write(e, st, r, MapV(m.ty, m.vt, z3.Store(m.has, k, z3.BoolVal(False)), m.arrs))
    return old


# iteration over a map visits every key once, in some order (enumkey(has, i), i < enumn(has); enumidx is the inverse)
AB = z3.ArraySort(Str, z3.BoolSort())
enumn = z3.Function('enum_n', AB, I)
enumkey = z3.Function('enum_key', AB, I, Str)
enumidx = z3.Function('enum_idx', AB, Str, I)
MAPK = ('map', 'mapval', 'mapkeys', 'mapvalues')


def enumfacts(e, has):
    n = enumn(has)
    if n.get_id() not in e.rng:
        e.rng[n.get_id()] = None; e.keep += [n, has]
        i = z3.Int('en_i'); k = z3.Const('en_k', Str)
        e.fact(n >= 0); e.fact(n <= 2 ** 62)
        e.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Select(has, enumkey(has, i)), enumidx(has, enumkey(has, i)) == i)), patterns=[enumkey(has, i)]))
        e.fact(z3.ForAll([k], z3.Implies(z3.Select(has, k), z3.And(enumidx(has, k) >= 0, enumidx(has, k) < n, enumkey(has, enumidx(has, k)) == k)), patterns=[enumidx(has, k)]))
    return n


def mapitem(e, st, k, it, idx, dty):
    m = it.src
    key = e.S.touch(enumkey(m.has, ival(idx))); val = map_get(e, st, m, key)
    t = e.T[dty]['args'][0]
    if k == 'mapkeys': return Ref(('V', key))
    if k == 'mapvalues': return Ref(('V', val))
    if k == 'mapval': return Agg(t, [key, val])
    return Agg(t, [Ref(('V', key)), Ref(('V', val))])


@model('std::collections::hash::map::HashMap::<K, V, S, A>::iter', "re:<&'a std::collections::hash::map::HashMap<K, V, S, A> as core::iter::traits::collect::IntoIterator>::into_iter",
       're:<std::collections::hash::map::HashMap<K, V, S, A> as core::iter::traits::collect::IntoIterator>::into_iter',
       'std::collections::hash::map::HashMap::<K, V, S, A>::keys', 'std::collections::hash::map::HashMap::<K, V, S, A>::values')
def _(e, st, c):
    m = der(e, st, c.vals[0])
    if not isinstance(m, MapV): raise Unsupported('iteration over %r' % (m,))
    k = 'mapkeys' if c.rp.endswith('keys') else 'mapvalues' if c.rp.endswith('values') else 'map' if c.rp[:2] != '<s' else 'mapval'
    return It(c.dty, k, m, 0, enumfacts(e, m.has))


@model('std::collections::hash::map::HashMap::<K, V, S, A>::len', 'std::collections::hash::map::HashMap::<K, V, S, A>::is_empty')
def _(e, st, c):
    m = der(e, st, c.vals[0]); n = enumfacts(e, m.has)
    return n if c.rp.endswith('len') else simp(n == 0)


# --- regular expressions
def rxterm(e, st, v):
    v = der(e, st, v)
    if isinstance(v, Opq): return v.t
    raise Unsupported('regex %r' % (v,))


def rxalts(e, k):
    """literal alternatives of a regex ^(A|B|..)$ with plain words, when its source is known"""
    src = None
    if z3.is_app(k) and k.decl().eq(rxmk): src = e.S.text(k.arg(0))
    if src is None: return None
    m = re.fullmatch(r'\^\(([A-Za-z|]+)\)\$', src)
    return m.group(1).split('|') if m else None


@model('regex::re_unicode::Regex::new')
def _(e, st, c):
    s = sv(e, st, c.vals[0])
    return result(e, c.dty, rxok(s), Opq(e.T[c.dty]['args'][0], rxmk(s)), Opq(e.T[c.dty]['args'][1], z3.Int('rxerr')))


@model('lazy_static::lazy::Lazy::<T>::get')
def _(e, st, c):
    v = der(e, st, c.vals[0])
    nm = str(v.t).replace('static:', '')
    t = e.T[c.dty]['t']
    lit = static_regex(e, nm)
    if lit is None: raise Unsupported('lazy static ' + nm)
    return Ref(('V', Opq(t, rxmk(e.S.lit(lit)))))


def static_regex(e, nm):
    m = re.match(r'<(.*) as core::ops::deref::Deref>', nm)
    if not m: return None
    for f in e.p.fns:
        if f.path.startswith('<' + m.group(1) + ' as ') and '__static_ref_initialize' in f.path:
            for b in f.blocks:
                t = b['t']
                if t[0] == 'call' and e.T[t[1]].get('rpath') == 'regex::re_unicode::Regex::new':
                    o = t[3][0]
                    if o[0] == 'c' and o[1]['c'] == 'str': return o[1]['v']
                    # argument passed through locals
                    n = 0
                    while o[0] in ('cp', 'mv') and n < 10:
                        n += 1; nx = None
                        for b2 in f.blocks:
                            for s in b2['s']:
                                if s[0] in ('dead', 'intrinsic') or s[0][0] != o[1][0] or s[0][1]: continue
                                if s[1][0] == 'use': nx = s[1][1]
                                elif s[1][0] == 'ref': nx = ['cp', [s[1][1][0], []]]
                        if nx is None: break
                        o = nx
                    if o[0] == 'c' and o[1]['c'] == 'str': return o[1]['v']
    return None


@model('regex::re_unicode::Regex::find')
def _(e, st, c):
    k = rxterm(e, st, c.vals[0]); s = sv(e, st, c.vals[1])
    f, a, b = rxm(k, s), rxs(k, s), rxe(k, s)
    if a.get_id() not in e.rng:
        e.rng[a.get_id()] = None; e.keep += [a, b, f]
        e.fact(z3.Implies(f, z3.And(0 <= a, a <= b, b <= slen(s), bval(e.S.isb(s, a)), bval(e.S.isb(s, b)))))
    mt = e.T[c.dty]['args'][0]
    return option(e, c.dty, f, Agg(mt, [a, b]))


@model("regex::re_unicode::Match::<'t>::start")
def _(e, st, c): return der(e, st, c.vals[0]).fs[0]


@model("regex::re_unicode::Match::<'t>::end")
def _(e, st, c): return der(e, st, c.vals[0]).fs[1]


@model('regex::re_unicode::Regex::is_match')
def _(e, st, c):
    k = rxterm(e, st, c.vals[0]); s = sv(e, st, c.vals[1])
    e.c.is_match_facts(e, st, k, s)
    return rxm(k, s)


@model('core::mem::drop')
def _(e, st, c): return Agg(c.dty, [])


@model('core::mem::replace')
def _(e, st, c):
    r = e.ex(c.vals[0]); old = e.rd(st, r.root, r.path); write(e, st, r, c.vals[1]); return old


@model('core::mem::swap')
def _(e, st, c):
    a = e.ex(c.vals[0]); b = e.ex(c.vals[1])
    x = e.rd(st, a.root, a.path); y = e.rd(st, b.root, b.path)
    write(e, st, a, y); write(e, st, b, x); return Agg(c.dty, [])


@model('core::mem::take')
def _(e, st, c):
    r = e.ex(c.vals[0]); old = e.rd(st, r.root, r.path); t = e.T[c.dty]
    if t['k'] == 'adt' and t['path'] == 'alloc::vec::Vec': write(e, st, r, vnew(e, c.dty))
    elif t['k'] == 'adt' and t['path'] == 'alloc::string::String': write(e, st, r, EMPTY)
    elif t['k'] == 'adt' and t['path'] == 'core::option::Option': write(e, st, r, Enum(c.dty, 0, []))
    else: raise Unsupported('mem::take')
    return old


@model('core::option::Option::<T>::take')
def _(e, st, c):
    r = e.ex(c.vals[0]); old = e.rd(st, r.root, r.path); write(e, st, r, Enum(c.dty, 0, [])); return old


# --- all matches of a regex in a string
rxn = z3.Function('rx_count', I, Str, I)
rxsi = z3.Function('rx_start_i', I, Str, I, I)
rxei = z3.Function('rx_end_i', I, Str, I, I)


def rxall(e, k, s):
    """facts about the matches of k in s, in order"""
    n = rxn(k, s)
    if n.get_id() not in e.rng:
        e.rng[n.get_id()] = None; e.keep += [n]
        i, j = z3.Ints('rx_i rx_j')
        e.fact(n >= 0); e.fact(n <= slen(s) + 1)
        e.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(rxsi(k, s, i) >= 0, rxsi(k, s, i) <= rxei(k, s, i), rxei(k, s, i) <= slen(s))), patterns=[rxei(k, s, i)]))
        e.fact(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), z3.And(rxei(k, s, i) <= rxsi(k, s, j), rxei(k, s, i) <= rxei(k, s, j))), patterns=[z3.MultiPattern(rxei(k, s, i), rxei(k, s, j))]))
        e.c.rx_facts(e, k, s)
    return n


@model('regex::re_unicode::Regex::find_iter')
def _(e, st, c):
    k = rxterm(e, st, c.vals[0]); s = sv(e, st, c.vals[1])
    return It(c.dty, 'rx', (k, s), 0, rxall(e, k, s))


@model("re:<regex::re_unicode::Matches<'r, 't> as core::iter::traits::iterator::Iterator>::next")
def _(e, st, c):
    r = e.ex(c.vals[0]); it = der(e, st, r)
    if not (isinstance(it, It) and it.kind == 'rx'): raise Unsupported('next of %r' % (it,))
    out = []
    for s2, b in fork(e, st, simp(ival(it.i) < ival(it.n))):
        if not b: out.append((s2, Enum(c.dty, 0, []))); continue
        k, s = it.src
        a, z = rxsi(k, s, ival(it.i)), rxei(k, s, ival(it.i)); e.keep += [a, z]
        write(e, s2, r, It(it.ty, it.kind, it.src, simp(ival(it.i) + 1), it.n))
        out.append((s2, Enum(c.dty, 1, [Agg(e.T[c.dty]['args'][0], [a, z])])))
    return out


@model('core::iter::traits::iterator::Iterator::count', 're:<.*Matches.* as core::iter::traits::iterator::Iterator>::count', 're:<.*slice::iter::Iter.* as core::iter::traits::iterator::Iterator>::count',
       're:<core::str::iter::.* as core::iter::traits::iterator::Iterator>::count', 're:<std::collections::hash::map::.* as core::iter::traits::iterator::Iterator>::count')
def _(e, st, c):
    it = e.ex(c.vals[0])
    if isinstance(it, It) and it.kind in ('rx', 'ref', 'val'): return simp(ival(it.n) - ival(it.i))
    if isinstance(it, It) and it.kind in ('chars', 'charix'):
        t = e.S.text(it.src)
        if t is not None and it.i == 0: return len(t)
        r = ccount(e.S.sub(it.src, it.i, it.n)); x = r.arg(0)
        if r.get_id() not in e.rng:
            e.rng[r.get_id()] = None; e.keep.append(r)
            e.fact(r >= 0); e.fact(r <= slen(x)); e.fact(slen(x) <= 4 * r)
        return r
    if isinstance(it, It) and it.kind.split('-')[0] in ('ref', 'val', 'map', 'mapval', 'mapkeys', 'mapvalues'): return simp(ival(it.n) - ival(it.i))
    raise Unsupported('count of %r' % (it,))


ccount = z3.Function('char_count', Str, I)
