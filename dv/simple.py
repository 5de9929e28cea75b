"""Contracts of the matchers that run at most one child: Optional, Not, ProxyChildren, ExpandRange, Discard,
SetScope, Store, Ref, Register, Map, Catch, Error, Panic, Debug, Null, Break."""
from .contract import *


def skip(s, e, n=0): return s.Ok(e, 'Skip', n)


class Optional(ExecContract):
    id = 'C07'; cls = 'matchers::optional::OptionalPattern'
    def post(s, e, st, v):
        ev = s.once(e, st, s.fld(e, 'matcher').a)
        k = ev.case[0]
        if k == 'Fail': s.same(e, st, 'an ordinary failure becomes a skip of zero', v, skip(s, e))
        else: s.same(e, st, 'the result is passed on unchanged (%s)' % k, v, ev.res)
        s.frame(e, st)


class Not(ExecContract):
    id = 'C07'; cls = 'matchers::not::NotPattern'
    def post(s, e, st, v):
        ev = s.once(e, st, s.fld(e, 'matcher').a)
        k = ev.case[0]
        if k == 'Fail': s.same(e, st, 'an ordinary failure becomes a skip of zero', v, skip(s, e))
        elif k in ('Token', 'ProxyChildren'): s.same(e, st, 'a capture becomes an ordinary failure', v, s.Err(e, 'Fail'))
        elif k == 'Skip':
            n = ival(e.ex(ev.case[1]))
            s.where(e, st, 'a skip that moves becomes an ordinary failure', n != 0, v, s.Err(e, 'Fail'))
            s.where(e, st, 'a zero-width skip is passed on', n == 0, v, ev.res)
        else: s.same(e, st, 'the result is passed on unchanged (%s)' % k, v, ev.res)
        s.frame(e, st)


class ProxyChildren(ExecContract):
    id = 'C20'; cls = 'matchers::proxy_children::ProxyChildrenPattern'
    payload = True
    def post(s, e, st, v):
        ev = s.once(e, st, s.fld(e, 'matcher').a)
        k = ev.case[0]; exp = ev.res
        if k == 'Token': exp = s.Ok(e, 'ProxyChildren', ev.case[1])
        if k in ('Break', 'Continue') and ev.case[2].v == 0:
            exp = s.sig(e, k, ev.case[1], Enum(s.msty, 1, [ev.case[2].fs[0]]))
        s.same(e, st, 'a token is flattened, everything else is passed on unchanged (%s)' % k, v, exp)
        s.frame(e, st)
        if k in ('Token', 'ProxyChildren'): unchanged(s, e, st, e.ex(ev.case[1]).a, ev)


def unchanged(s, e, st, a, ev, but=(), name="the child's token itself is unchanged"):
    for leaf in TOK:
        if leaf in but: continue
        e.oblige(st, '%s (%s)' % (name, leaf), eq(e.hread(st, leaf, a), childleaf(e, st, leaf, a, ev)))


def childleaf(e, st, leaf, a, ev):
    """field of a token as the child run returned it"""
    F = z3.Const('F%d_%s' % (ev.epoch, leaf), z3.ArraySort(I, TOK[leaf]))
    return e._hread(st, leaf, F, a)


class ExpandRange(ExecContract):
    id = 'C20'; cls = 'matchers::expand_range::ExpandRange'
    def post(s, e, st, v):
        ev = s.once(e, st, s.fld(e, 'matcher').a)
        k = ev.case[0]
        if k == 'Token':
            t = e.ex(ev.case[1]).a
            w = s.expect_shape(e, st, 'a token is wrapped in a flattened result', v, 'ProxyChildren')[0].a
            W = s.tok(e, st, w); ms = childleaf(e, st, 'ms', t, ev); me = childleaf(e, st, 'me', t, ev)
            e.oblige(st, 'the wrapper is a new token', w != t)
            e.oblige(st, 'the wrapper is called ExpandRange', eq(W.name, e.S.lit('ExpandRange')))
            e.oblige(st, "the wrapper's ranges are the token's matched range", And(eq(W.cs, ms), eq(W.ce, me), eq(W.ms, ms), eq(W.me, me)))
            e.oblige(st, 'the wrapper has exactly one child, the token', And(eq(W.clen, 1), eq(e.sel(st, W.carr, 0), t)))
            e.oblige(st, 'the wrapper is an ordinary token of the same source', And(eq(W.parser, s.parser), Not(W.pin)) if False else And(eq(W.parser, s.parser), eq(W.pin, False)))
            unchanged(s, e, st, t, ev)
        elif k == 'ProxyChildren':
            t = e.ex(ev.case[1]).a
            s.same(e, st, 'a flattened result stays that flattened result', v, ev.res)
            T = s.tok(e, st, t); ms = childleaf(e, st, 'ms', t, ev); me = childleaf(e, st, 'me', t, ev)
            e.oblige(st, 'its captured range becomes its matched range', And(eq(T.cs, ms), eq(T.ce, me)))
            unchanged(s, e, st, t, ev, ('cs', 'ce', 'capv'))
        else: s.same(e, st, 'everything else is passed on unchanged (%s)' % k, v, ev.res)
        s.frame(e, st)


class SetScope(ExecContract):
    id = 'C10'; cls = 'matchers::set_scope::SetScopePattern'
    def setup(s, e, st):
        out = []
        own = e.ex(s.fld(e, 'scope'))
        for al in (True, False):
            for h in (0, 1):
                n = st.copy()
                e.assume(n, s.ctxscope == s.scope.a if al else s.ctxscope != s.scope.a)
                e.assume(n, own.tag == h)
                if h:
                    # the given scope may be any of the caller's scopes or another one
                    o = e.ex(e.payload(own, 1, 0)).a
                    for x in ('other', 'ctx', 'arg'):
                        m = n.copy()
                        try:
                            if x == 'other': e.assume(m, And(o != s.ctxscope, o != s.scope.a))
                            elif x == 'ctx': e.assume(m, o == s.ctxscope)
                            else:
                                if al: continue
                                e.assume(m, o == s.scope.a)
                        except Infeasible: continue
                        out.append(m)
                else: out.append(n)
        return out
    def post(s, e, st, v):
        ev = s.once(e, st, s.fld(e, 'matcher').a, scope=False)
        own = e.ex(s.fld(e, 'scope'))
        has = e.case(st, eq(own.tag, 1))
        if has:
            e.oblige(st, 'the pattern runs in the given scope', eq(ev.scope, e.ex(e.payload(own, 1, 0)).a))
            e.oblige(st, 'a given scope is entered as it is', s.depth(ev.chain) == 0)
        else:
            e.oblige(st, "the pattern runs in the context's scope stack", eq(ev.scope, s.ctxscope))
            e.oblige(st, 'exactly one new scope is entered', s.depth(ev.chain) == 1)
            ps = [x for x in st.ev if x.kind == 'push']
            e.oblige(st, 'the scope entered is a new one', And(*[Not(eq(p.case[0], p2.case[0])) for p in ps for p2 in ps if p is not p2],
                                                              len(ps) == 1 and e.frng(ps[0].case[0]) is not None and e.frng(ps[0].case[0])[0] == 'f'))
            e.oblige(st, 'the new scope is empty', s.empty_scope(e, st, ps[0].case[0]))
        for a in (s.ctxscope, s.scope.a) + ((e.ex(e.payload(own, 1, 0)).a,) if has else ()):
            e.oblige(st, 'the scope stack is as deep as before', s.depth(s.chain(e, st, a)) == 0)
        s.same(e, st, 'the result is passed on unchanged', v, ev.res)
        s.frame(e, st)
    def empty_scope(s, e, st, a):
        if a.get_id() not in st.cells: return False
        v = e.ex(st.cells[a.get_id()][1])
        m = e.ex(v.fs[0])
        return z3.is_const_array(m.has) and z3.is_false(m.has.arg(0))


class Debug(ExecContract):
    id = 'C08'; cls = 'matchers::debug::DebugPattern'; debug = True
    def post(s, e, st, v): error_post(s, e, st, v)


def error_post(s, e, st, v):
    ex = s.execs(st)
    for i, x in enumerate(ex):
        if x.case[0] == 'Error':
            e.oblige(st, 'no further pattern runs after a fatal error', i == len(ex) - 1)
            s.same(e, st, 'the fatal error is returned unchanged', v, x.res)


class ErrorRule:
    """C08 for any matcher: mixin"""
    id = 'C08'
    def child_pre(s, e, st, m, ctx, cv):
        e.oblige(st, 'no further pattern runs after a fatal error', all(x.case[0] != 'Error' for x in s.execs(st)))
    def loop_back(s, e, st, head):
        e.oblige(st, 'a fatal error ends the loop', all(x.case[0] != 'Error' for x in s.execs(st)))
    def post(s, e, st, v): error_post(s, e, st, v)


def er(name, path, **k):
    d = dict(cls=path, keep_case=k.pop('keep_case', ())); d.update(k)
    return type('Fatal_' + name, (ErrorRule, ExecContract), d)


class StoreBase(ExecContract):
    cls = 'matchers::store::StorePattern'
    def pat(s, e): return e.ex(s.fld(e, 'pattern'))


class Store(StoreBase):
    id = 'C11'
    def post(s, e, st, v):
        p = s.pat(e); name = s.fld(e, 'name')
        log = [x for x in st.ev if x.kind in ('set', 'push', 'pop', 'exec')]
        kinds = [x.kind for x in log]
        vn = [q['name'] for q in e.T[p.ty]['variants']]
        kind = [e.kcase(st, p, len(vn))]
        cus = e.case(st, s.fld(e, 'custom_name'))
        reg = ['set'] if cus else []
        if vn[kind[0]] == 'Matcher':
            ev = s.once(e, st, e.ex(e.payload(p, kind[0], 0)).a)
            k = ev.case[0]
            if k == 'Token':
                e.oblige(st, 'a produced token is stored once, after the run', kinds == reg + ['exec', 'set'])
                stored(s, e, st, log[-1], name, 'Token', ev.case[1])
            else: e.oblige(st, 'nothing is stored when no token was produced', kinds == reg + ['exec'])
            s.same(e, st, 'the result is passed on unchanged', v, ev.res)
        else:
            e.oblige(st, 'the fixed text is stored once', kinds == reg + ['set'])
            stored(s, e, st, log[-1], name, 'String', e.payload(p, kind[0], 0))
            s.same(e, st, 'storing text consumes nothing', v, skip(s, e))
        if reg: registered(s, e, st, log[0], name)
        s.frame(e, st)


def vtname(e, v): return e.T[v.ty]['variants'][v.v]['name']


def stored(s, e, st, ev, name, kind, val):
    n, x = ev.case
    e.oblige(st, 'it is stored in the current scope', eq(ev.scope, s.scope.a))
    e.oblige(st, 'it is stored under its name', eq(n, name))
    if not isinstance(x, Enum): raise Unsupported('stored value')
    e.oblige(st, 'what is stored is the %s' % kind.lower(), vtname(e, x) == kind)
    s.same(e, st, 'the stored %s is the one produced' % kind.lower(), x.fs[0], val)


def registered(s, e, st, ev, name, m=None):
    n, x = ev.case
    e.oblige(st, 'the matcher makes itself known in the current scope', eq(ev.scope, s.scope.a))
    e.oblige(st, 'it is known under its own name', eq(n, name))
    if not isinstance(x, Enum): raise Unsupported('registered value')
    e.oblige(st, 'what is registered is the matcher itself', And(vtname(e, x) == 'Matcher', eq(e.ex(x.fs[0]).a, s.this.a if m is None else m) if vtname(e, x) == 'Matcher' else False))


class NameRule:
    """C11: a matcher with a custom name registers itself first; others register nothing by themselves"""
    id = 'C11'
    def post(s, e, st, v):
        log = [x for x in st.ev if x.kind in ('set', 'push', 'pop', 'exec', 'fetch', 'loop')]
        cus = e.case(st, s.fld(e, 'custom_name')) if s.hasfld(e, 'custom_name') else False
        if cus:
            e.oblige(st, 'a matcher given a name registers before it does anything', bool(log) and log[0].kind == 'set')
            registered(s, e, st, log[0], s.fld(e, 'name'))
            log = log[1:]
        s.rest(e, st, log)
    def rest(s, e, st, log):
        e.oblige(st, 'nothing else is put into a scope', all(x.kind not in ('set', 'push', 'pop') for x in log))


def nr(name, path, **k):
    d = dict(cls=path); d.update(k)
    return type('Named_' + name, (NameRule, ExecContract), d)


class Ref_(ExecContract):
    id = 'C11'; cls = 'matchers::r#ref::RefPattern'
    def after_fetch(s): pass
    def post(s, e, st, v):
        fe = [x for x in st.ev if x.kind == 'fetch']
        e.oblige(st, 'the target is fetched exactly once', len(fe) == 1)
        f = fe[0]
        e.oblige(st, 'the target is fetched in the current scope', eq(f.scope, s.scope.a))
        i, x = f.case
        ex = s.execs(st)
        vn = e.T[f.res.ty]['variants'][i]['name']
        if vn == 'String':
            # the lookup, in the scope as it was when the reference ran
            ch = ex[0].chain if ex else s.chain(e, st, s.scope.a)
            g = e.ex(s.scope_holds(e, st, s.scope.a, x, s.optvar(e), ch))
            vt = e.ex(g.fs[0]) if isinstance(g, Enum) and g.v == 1 else e.ex(e.payload(g, 1, 0)) if isinstance(g, SEnum) else None
            some = eq(g.tag, 1) if isinstance(g, SEnum) else g.v == 1
            mi = s.vti(e, 'Matcher')
            ism = And(some, eq(vt.tag, mi) if isinstance(vt, SEnum) else vt.v == mi) if vt is not None else False
            if ex:
                e.oblige(st, 'a reference runs only what is registered as a matcher under that name', ism)
                mm = e.ex(e.payload(vt, mi, 0)) if isinstance(vt, SEnum) else e.ex(vt.fs[0])
                ev = s.once(e, st, mm.a)
                s.same(e, st, 'the result is passed on unchanged', v, ev.res)
            else:
                e.oblige(st, 'nothing runs only when no matcher is registered under that name', core.Not(ism))
                sh = s.expect_shape(e, st, 'an unknown reference is a fatal error', v, 'Error')
        else:
            ev = s.once(e, st, x.a)
            s.same(e, st, 'the result is passed on unchanged', v, ev.res)
        s.frame(e, st)
    def optvar(s, e):
        for i, t in enumerate(e.T):
            if t['k'] == 'adt' and t['path'] == 'core::option::Option' and e.T[t['args'][0]].get('path') == 'scope::VariableType': return i
    def vti(s, e, n):
        t = e.T[e.T[s.optvar(e)]['args'][0]]
        return [v['name'] for v in t['variants']].index(n)


class Register(ExecContract):
    """every pattern is put in the scope, in order, under its name: checked per loop iteration"""
    id = 'C11'; cls = 'matchers::register::RegisterPattern'
    def setup(s, e, st):
        r = super().setup(e, st)
        for x in r: x.ghost['n'] = 0
        return r
    def scope_call(s, e, st, c, name):
        r = super().scope_call(e, st, c, name)
        if name == 'set':
            ev = st.ev[-1]; pats = s.fld(e, 'patterns')
            n = st.ghost['n']
            m = e.elem(st, pats, n).a
            e.oblige(st, 'no more is registered than there are patterns', simp(ival(n) < ival(pats.len)))
            registered(s, e, st, ev, e.S.touch(mname(m)), m)
            st.ghost['n'] = simp(ival(n) + 1)
        return r
    def post(s, e, st, v):
        e.oblige(st, 'every pattern is registered', eq(st.ghost['n'], s.fld(e, 'patterns').len))
        s.same(e, st, 'registering consumes nothing', v, skip(s, e))
        e.oblige(st, 'registering runs nothing', not s.execs(st))
        s.frame(e, st)


def fname(ev):
    """field of self that holds the function called"""
    import re
    m = re.search(r'self\.(\w+)', str(ev.case[0]))
    return m.group(1) if m else None


class FnEvents:
    """calls of function parameters (Fn::call) as events with arbitrary results"""
    def on_fn(s, e, st, c, ref, v):
        args = e.ex(c.vals[1])
        args = [e.ex(x) for x in args.fs]
        n = len([x for x in st.ev if x.kind == 'call'])
        r = SymV(c.dty, 'fnres%d' % n, 0, st.epoch)
        who = models.der(e, st, ref) if not isinstance(ref, SymV) else ref
        name = getattr(who, 'name', None) or repr(who)
        cv = None
        for x in args:
            if isinstance(x, RcV) and e.T[e.strip(x.ty)].get('path', '').endswith('ParserContext'): cv = s.cellval(e, st, x)
        st.ev = st.ev + (Ev(kind='call', case=(name, args), res=r, cv=cv),)
        return [(st, r)]


class Map(FnEvents, ExecContract):
    id = 'C19'; cls = 'matchers::map::MapPattern'
    def post(s, e, st, v):
        ev = s.once(e, st, s.fld(e, 'matcher').a)
        k = ev.case[0]
        calls = [x for x in st.ev if x.kind == 'call']
        ff = e.ex(s.fld(e, 'failure_func'))
        if k in ('Token', 'ProxyChildren'):
            e.oblige(st, 'the success function is called exactly once', len(calls) == 1)
            e.oblige(st, 'it is the success function that is called', fname(calls[0]) == 'success_func')
            s.same(e, st, 'it is given the token produced', calls[0].case[1][0], ev.case[1])
            s.fnargs(e, st, calls[0], 1, 2)
            s.same(e, st, 'what it returns is the result', v, calls[0].res)
            e.oblige(st, 'it is called after the pattern', st.ev.index(calls[0]) > st.ev.index(ev))
        elif k in ('Fail', 'Error'):
            has = e.case(st, eq(ff.tag, 1))
            if has:
                e.oblige(st, 'the failure function is called exactly once', len(calls) == 1)
                e.oblige(st, 'it is the failure function that is called', fname(calls[0]) == 'failure_func')
                s.same(e, st, 'it is given the failure', calls[0].case[1][0], ev.res.fs[0])
                s.fnargs(e, st, calls[0], 1, 2)
                s.same(e, st, 'what it returns is the result', v, calls[0].res)
            else:
                e.oblige(st, 'no function is called', len(calls) == 0)
                s.same(e, st, 'the failure is passed on unchanged', v, ev.res)
        else:
            e.oblige(st, 'no function is called for other results', len(calls) == 0)
            s.same(e, st, 'other results are passed on unchanged', v, ev.res)
        if k in ('Token', 'ProxyChildren'): unchanged(s, e, st, e.ex(ev.case[1]).a, ev)
        s.frame(e, st)
    def fnargs(s, e, st, call, ci, si):
        a, b = s.window(e, call.cv)
        e.oblige(st, "the function is given the caller's window", And(eq(a, s.w0), eq(b, s.w1)))
        e.oblige(st, 'the function is given the same source', eq(s.cget(e, call.cv, 'parser').a, s.parser))
        if si is not None: e.oblige(st, "the function is given the caller's scope", eq(call.case[1][si].a, s.scope.a))


class FatalMap(Map):
    """C08: a fatal error goes to the function for failures, whose answer is the result, or is returned unchanged"""
    id = 'C08'
    def post(s, e, st, v):
        for ev in s.execs(st):
            if ev.case[0] != 'Error': continue
            calls = [x for x in st.ev if x.kind == 'call']
            e.oblige(st, 'no further pattern runs after a fatal error', ev is s.execs(st)[-1])
            if e.case(st, eq(e.ex(s.fld(e, 'failure_func')).tag, 1)):
                e.oblige(st, 'the function for failures is asked', len(calls) == 1 and fname(calls[0]) == 'failure_func')
                if len(calls) != 1: return
                s.same(e, st, 'it is given the fatal error', calls[0].case[1][0], ev.res.fs[0])
                s.same(e, st, 'what it returns is the result', v, calls[0].res)
            else: s.same(e, st, 'the fatal error is returned unchanged', v, ev.res)


class Catch(Map):
    id = 'C19'; cls = 'matchers::catch::CatchPattern'
    def post(s, e, st, v):
        ev = s.once(e, st, s.fld(e, 'matcher').a)
        k = ev.case[0]
        calls = [x for x in st.ev if x.kind == 'call']
        if k in ('Fail', 'Error'):
            e.oblige(st, 'the function is called exactly once on a failure', len(calls) == 1)
            e.oblige(st, 'it is the given function', fname(calls[0]) == 'catch_func')
            s.same(e, st, 'it is given the failure', calls[0].case[1][1], ev.res.fs[0])
            s.fnargs(e, st, calls[0], 0, None)
            s.same(e, st, 'what it returns is the result', v, calls[0].res)
        else:
            e.oblige(st, 'no function is called on success', len(calls) == 0)
            s.same(e, st, 'a success is passed on unchanged', v, ev.res)
        s.frame(e, st)


IS_ERROR = 0x02


def error_token(s, e, st, t, msg, a, b, cap=True):
    T = s.tok(e, st, t)
    e.oblige(st, 'the error token is called Error', eq(T.name, e.S.lit('Error')))
    e.oblige(st, 'the error token is flagged as an error', simp((T.flags & IS_ERROR) != 0) if isz(T.flags) else bool(T.flags & IS_ERROR))
    e.oblige(st, 'the error token lies at the given position', And(eq(T.ms, a), eq(T.me, b), eq(T.cs, a), eq(T.ce, b)))
    k = e.S.lit('__message')
    e.oblige(st, 'the error token carries its message', And(simp(z3.Select(T.ahas, k)), eq(models.selattr(e, T.aval, k), errs(s, e, s.parser, msg, a, b))))
    e.oblige(st, 'the error token has no children', eq(T.clen, 0))


def errs(s, e, p, msg, a, b): return e.S.touch(models.errstr(p, msg, ival(a), ival(b)))


class ErrorM(ExecContract):
    id = 'C19'; cls = 'matchers::error::ErrorPattern'
    def post(s, e, st, v):
        t = s.expect_shape(e, st, 'an Error matcher yields a token', v, 'Token')[0].a
        error_token(s, e, st, t, s.fld(e, 'message'), s.w0, s.w0)
        e.oblige(st, 'nothing is run', not s.execs(st))
        s.frame(e, st)


class PanicM(ExecContract):
    id = 'C19'; cls = 'matchers::panic::PanicPattern'
    def post(s, e, st, v):
        er = e.ex(s.expect_shape(e, st, 'a Panic matcher aborts', v, 'Error')[0])
        msg = e.ex(er.fs[0]); rg = e.ex(er.fs[1])
        stk = e.ex(s.cget(e, s.cv, 'token_stack'))
        e.oblige(st, 'the error has a range', isinstance(rg, Enum) and rg.v == 1)
        r = e.ex(rg.fs[0]); a, b = e.ex(r.fs[0]), e.ex(r.fs[1])
        n = stk.len
        emp = simp(ival(n) == 0)
        top = e.elem(st, stk, simp(ival(n) - 1)).a
        tms = e.hread(st, 'ms', top)
        e.oblige(st, 'the error range ends at the current position', eq(b, s.w0))
        e.oblige(st, 'the error range starts at the enclosing token, or at the position when there is none', And(Implies(emp, eq(a, s.w0)), Implies(core.Not(emp), eq(a, tms))))
        e.oblige(st, 'the error carries the message', eq(msg, errs(s, e, s.parser, s.fld(e, 'message'), a, b)))
        s.frame(e, st)


class Null(ExecContract):
    id = 'C19'; cls = 'matchers::null::NullPattern'
    def post(s, e, st, v):
        s.same(e, st, 'Null consumes nothing', v, skip(s, e)); s.frame(e, st)


class Break(ExecContract):
    id = 'C06'; cls = 'matchers::r#break::BreakPattern'
    def post(s, e, st, v):
        s.same(e, st, 'Break signals its loop name', v, s.sig(e, 'Break', s.fld(e, 'loop_name'), Enum(s.msty, 5, [])))
        s.frame(e, st)


class NamedMap(NameRule, Map): pass
class NamedCatch(NameRule, Catch): pass


P = 'matchers::'
FATAL = [er('Optional', P + 'optional::OptionalPattern'), er('Not', P + 'not::NotPattern'), er('ProxyChildren', P + 'proxy_children::ProxyChildrenPattern', payload=True),
         er('ExpandRange', P + 'expand_range::ExpandRange'), er('Store', P + 'store::StorePattern'), er('Ref', P + 'r#ref::RefPattern'), er('SetScope', P + 'set_scope::SetScopePattern'), FatalMap, Debug]
NAMED = [nr('ProxyChildren', P + 'proxy_children::ProxyChildrenPattern', payload=True), nr('Ref', P + 'r#ref::RefPattern'),
         nr('Optional', P + 'optional::OptionalPattern'), nr('Not', P + 'not::NotPattern'), nr('ExpandRange', P + 'expand_range::ExpandRange'),
         NamedMap, NamedCatch, nr('Error', P + 'error::ErrorPattern'),
         nr('Panic', P + 'panic::PanicPattern', panics_ok=True), nr('Null', P + 'null::NullPattern'), nr('Break', P + 'r#break::BreakPattern'), nr('Debug', P + 'debug::DebugPattern')]
ALL = [Optional, Not, ProxyChildren, ExpandRange, SetScope, Store, Ref_, Map, Catch, ErrorM, PanicM, Null, Break, Register] + FATAL + NAMED
