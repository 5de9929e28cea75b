"""The public macros: one function per arm is compiled (extract/dv_macros.rs) and verified, constructors included."""
from .contract import *
from . import build
from .build import K, M, Ctor, LoopCtor, StoreCtor, given, textarg, lit, const, none, some, empty, variant, isaction, val
from .simple import skip

D = 'dv_macros::'


def args(*idx):
    """the list of patterns is exactly these arguments, in order"""
    def f(s, e, st, name, x):
        e.oblige(st, 'it has as many patterns as are given', eq(models.seqlen(e, st, x), len(idx)))
        for j, i in enumerate(idx):
            e.oblige(st, 'pattern %d is the one given' % (j + 1), eq(e.ex(e.elem(st, x, j)).a, e.ex(s.a[i]).a))
    return f


def somelit(t):
    def f(s, e, st, name, x): e.oblige(st, name, eq(models.sv(e, st, x), e.S.lit(t)))
    return f


def litvariant(vn, t):
    def f(s, e, st, name, x):
        if not isinstance(x, Enum): raise Unsupported('shape of ' + name)
        ok = e.T[x.ty]['variants'][x.v]['name'] == vn
        e.oblige(st, name + ' (kind)', ok)
        if ok: e.oblige(st, name, eq(models.sv(e, st, x.fs[0]), e.S.lit(t)))
    return f


def rx(i):
    def f(s, e, st, name, x): e.oblige(st, name, eq(models.rxterm(e, st, x), models.rxmk(models.sv(e, st, s.a[i]))))
    return f


class LoopMacro(LoopCtor):
    def override2(s, e, st, c):
        if c.rp == 'matchers::program::get_range': s.asked = val(e, st, c.vals[0])
        return super().override2(e, st, c)


def noend(s, e, st, name, x):
    ok = isinstance(x, Enum) and x.v == 1
    e.oblige(st, 'it repeats', ok)
    if not ok: return
    r = s.asked
    e.oblige(st, 'without a range it repeats from zero times on', isinstance(r, Agg) and e.T[r.ty].get('path') == 'core::ops::range::RangeFrom' and eq(e.ex(r.fs[0]), 0))
    e.oblige(st, 'its bounds are those of that range', len(s.ranges) == 1 and e.eqv(st, e.ex(x.fs[0]), s.ranges[0][1]))


class MatchesMacro(Ctor):
    panics_ok = True          # a regular expression that does not compile is refused


class FetchMacro(Ctor):
    def built(s, e, st, v): return e.ex(v)


P, NM, CN = M + 'program::ProgramPattern', lit('a name'), dict(custom_name=const(True))
prog = dict(iterate_range=none, on_first_match=isaction('Continue'))
swi = dict(iterate_range=none, on_first_match=isaction('Stop'))
lp = dict(on_first_match=isaction('Continue'))


def m(nm, fn, cls, ids, base=Ctor, **parts): return K('Macro_' + nm, D + fn, M + cls, ids, base=base, **parts)


CTORS = [
    m('Break', 'break_named', 'r#break::BreakPattern', 'C06', loop_name=textarg(0)),
    m('BreakAny', 'break_any', 'r#break::BreakPattern', 'C06', loop_name=lit('')),
    m('Discard', 'discard', 'discard::DiscardPattern', 'C09', matcher=given(0)),
    m('Equals', 'equals', 'equals::EqualsPattern', 'C01', pattern=given(0), name=lit('Equals'), custom_name=const(False)),
    m('EqualsNamed', 'equals_named', 'equals::EqualsPattern', ['C01', 'C11'], pattern=textarg(0), name=NM, custom_name=const(True)),
    m('Error', 'error', 'error::ErrorPattern', 'C19', message=textarg(0)),
    m('ExpandRange', 'expand_range', 'expand_range::ExpandRange', 'C20', matcher=given(0)),
    m('Fetch', 'fetch', 'fetch::FetchPattern', 'C11', base=FetchMacro, name=NM),
    m('Matches', 'matches', 'matches::MatchesPattern', 'C02', base=MatchesMacro, regex=rx(0), name=lit('Matches'), custom_name=const(False)),
    m('MatchesNamed', 'matches_named', 'matches::MatchesPattern', ['C02', 'C11'], base=MatchesMacro, regex=rx(0), name=NM, custom_name=const(True)),
    m('Not', 'not', 'not::NotPattern', 'C07', matcher=given(0)),
    m('Optional', 'optional', 'optional::OptionalPattern', 'C07', matcher=given(0)),
    m('Null', 'null', 'null::NullPattern', 'C07'),
    m('Panic', 'panic', 'panic::PanicPattern', 'C19', message=textarg(0)),
    m('Program0', 'program0', 'program::ProgramPattern', 'C04', patterns=empty, name=lit('Program'), custom_name=const(False), **prog),
    m('Program', 'program', 'program::ProgramPattern', 'C04', patterns=args(0, 1, 2), name=lit('Program'), custom_name=const(False), **prog),
    m('ProgramNamed', 'program_named', 'program::ProgramPattern', ['C04', 'C11'], patterns=args(0, 1, 2), name=NM, custom_name=const(True), **prog),
    m('Switch0', 'switch0', 'program::ProgramPattern', 'C05', patterns=empty, name=lit('Switch'), custom_name=const(False), **swi),
    m('Switch', 'switch', 'program::ProgramPattern', 'C05', patterns=args(0, 1, 2), name=lit('Switch'), custom_name=const(False), **swi),
    m('SwitchNamed', 'switch_named', 'program::ProgramPattern', ['C05', 'C11'], patterns=args(0, 1, 2), name=NM, custom_name=const(True), **swi),
    m('Loop0', 'loop0', 'program::ProgramPattern', 'C06', base=LoopMacro, patterns=empty, iterate_range=noend, name=lit('Loop'), custom_name=const(False), **lp),
    m('Loop', 'loop_any', 'program::ProgramPattern', 'C06', base=LoopMacro, patterns=args(0, 1, 2), iterate_range=noend, name=lit('Loop'), custom_name=const(False), **lp),
    m('LoopRange', 'loop_range', 'program::ProgramPattern', 'C06', base=LoopMacro, patterns=args(1, 2, 3), iterate_range=build.bounds(0), name=lit('Loop'), custom_name=const(False), **lp),
    m('LoopNamed', 'loop_named', 'program::ProgramPattern', ['C06', 'C11'], base=LoopMacro, patterns=args(0, 1, 2), iterate_range=noend, name=NM, custom_name=const(True), **lp),
    m('LoopRangeNamed', 'loop_range_named', 'program::ProgramPattern', ['C06', 'C11'], base=LoopMacro, patterns=args(1, 2, 3), iterate_range=build.bounds(0), name=NM, custom_name=const(True), **lp),
    m('Pin0', 'pin0', 'pin::PinPattern', 'C18', pattern=none, offset=lit(''), name=lit('Pin'), custom_name=const(False)),
    m('Pin', 'pin', 'pin::PinPattern', 'C18', pattern=some(0), offset=lit(''), name=lit('Pin'), custom_name=const(False)),
    m('PinAt', 'pin_at', 'pin::PinPattern', ['C18', 'C11'], pattern=some(0), offset=textarg(2), name=textarg(1), custom_name=const(True)),
    m('PinNamed', 'pin_named', 'pin::PinPattern', ['C18', 'C11'], pattern=some(0), offset=lit(''), name=textarg(1), custom_name=const(True)),
    m('PinAt0', 'pin_at0', 'pin::PinPattern', ['C18', 'C11'], pattern=none, offset=textarg(1), name=textarg(0), custom_name=const(True)),
    m('PinNamed0', 'pin_named0', 'pin::PinPattern', ['C18', 'C11'], pattern=none, offset=lit(''), name=textarg(0), custom_name=const(True)),
    m('Flatten', 'proxy_children', 'proxy_children::ProxyChildrenPattern', 'C20', matcher=given(0), custom_name=const(False)),
    m('FlattenNamed', 'proxy_children_named', 'proxy_children::ProxyChildrenPattern', ['C20', 'C11'], matcher=given(0), name=NM, custom_name=const(True)),
    m('Ref', 'reference', 'r#ref::RefPattern', 'C11', target=given(0), name=lit('Ref'), custom_name=const(False)),
    m('RefNamed', 'reference_named', 'r#ref::RefPattern', 'C11', target=given(0), name=NM, custom_name=const(True)),
    m('Register', 'register', 'register::RegisterPattern', 'C11', patterns=args(0, 1, 2)),
    m('Sequence', 'sequence', 'sequence::SequencePattern', 'C03', start=given(0), end=given(1), escape=given(2), name=lit('Sequence'), custom_name=const(False)),
    m('SequenceNamed', 'sequence_named', 'sequence::SequencePattern', ['C03', 'C11'], start=given(0), end=given(1), escape=given(2), name=NM, custom_name=const(True)),
    m('SetScope', 'set_scope', 'set_scope::SetScopePattern', 'C10', matcher=given(0), scope=none),
    m('SetScopeTo', 'set_scope_to', 'set_scope::SetScopePattern', 'C10', matcher=given(1), scope=some(0)),
    m('StoreText', 'store_text', 'store::StorePattern', 'C11', base=StoreCtor, name=NM, pattern=litvariant('String', 'a text')),
    m('Store', 'store', 'store::StorePattern', 'C11', base=StoreCtor, name=textarg(0), pattern=variant('Matcher', 1)),
    m('Debug0', 'debug0', 'debug::DebugPattern', 'C08', matcher=none),
    m('Debug', 'debug', 'debug::DebugPattern', 'C08', matcher=some(0)),
    m('DebugMode', 'debug_mode', 'debug::DebugPattern', 'C08', matcher=some(0), debug_mode=const(2)),
    m('DebugMode0', 'debug_mode0', 'debug::DebugPattern', 'C08', matcher=none, debug_mode=const(2)),
    m('Catch', 'catch', 'catch::CatchPattern', 'C19', matcher=given(0)),
]


class TokenRes(FnContract):
    id = 'C19'; path = D + 'token_result'
    def post(s, e, st, v):
        s.same(e, st, 'the result is the token', v, s.Ok(e, 'Token', s.args[0]))
        s.frame(e, st)


class ErrorRes(FnContract):
    """an error token: flagged, named Error, with the formatted message, spanning the given range"""
    id = 'C19'; path = D + 'error_result'
    def setup(s, e, st, args):
        s.cv = s.wellformed(e, st, args[0])
        s.parser = s.cget(e, s.cv, 'parser').a
    def post(s, e, st, v):
        t = s.expect_shape(e, st, 'the result is a token', v, 'Token')[0].a
        r = models.der(e, st, s.args[2])
        errtoken(s, e, st, t, models.sv(e, st, s.args[1]), ival(e.ex(r.fs[0])), ival(e.ex(r.fs[1])))
        s.frame(e, st)


def errtoken(s, e, st, t, msg, a, b):
    T = s.tok(e, st, t)
    e.oblige(st, 'the token is a new one', e.frng(t) is not None and e.frng(t)[0] == 'f')
    e.oblige(st, 'it is called Error', eq(T.name, e.S.lit('Error')))
    e.oblige(st, 'it is flagged as an error', (T.flags & 0x02) != 0)
    e.oblige(st, 'its ranges are the place of the error', And(eq(T.cs, a), eq(T.ce, b), eq(T.ms, a), eq(T.me, b)))
    e.oblige(st, 'it belongs to the source', eq(T.parser, s.parser))
    k = e.S.lit('__message')
    want = e.S.touch(models.errstr(s.parser, msg, ival(a), ival(b)))
    e.oblige(st, 'it carries the message, formatted for that place', And(simp(z3.Select(T.ahas, k)), eq(simp(z3.Select(T.aval, k)), want)))


class Guard(Ctor):
    """a matcher with a function for success and one for failure; both are run here on anything"""
    cls = M + 'map::MapPattern'; parts = dict(matcher=given(0)); id = 'C19'
    def check(s, e, st, w):
        super().check(e, st, w)
        names = [n for n, _ in e.T[w.ty]['variants'][0]['fields']]
        f, g = e.ex(w.fs[names.index('success_func')]), e.ex(w.fs[names.index('failure_func')])
        ok = isinstance(g, Enum) and g.v == 1
        e.oblige(st, 'there is a function for failures', ok)
        if not ok: return
        g = e.ex(g.fs[0])
        s.msg = models.sv(e, st, s.a[1]) if len(s.a) > 1 else None
        s.runfn(e, st, f, True, None); s.runfn(e, st, g, False, 'Fail'); s.runfn(e, st, g, False, 'Error')
    def runfn(s, e, st, f, good, how):
        st2 = st.copy()
        if not (isinstance(f, Agg) and e.T[f.ty]['k'] == 'closure'): raise Unsupported('function that is no closure')
        fn = e.p.by.get(e.T[f.ty]['inst'])
        ins = [e.ex(SymV(fn.locals[i], 'in%d_%s_%d' % (i, good, e.fresh_uid()))) for i in range(2, fn.argc + 1)]
        ctx = ins[1]
        cv = s.wellformed(e, st2, ctx)
        s.parser = s.cget(e, cv, 'parser').a
        if not good:
            i = ['Fail', 'Error'].index(how)
            e.assume(st2, ins[0].tag == i)
            ins[0] = Enum(ins[0].ty, i, [e.payload(ins[0], i, j) for j in range(len(e.T[ins[0].ty]['variants'][i]['fields']))])
        else:
            s.tok_in = ins[0]
            me, ms = ival(e.hread(st2, 'me', ins[0].a)), ival(e.hread(st2, 'ms', ins[0].a))
        t0 = dict(st2.tok); w0 = s.window(e, cv)
        def cont(e, st3, v):
            if good: s.success(e, st3, v, ins[0].a, ms, me)
            elif how == 'Error': s.same(e, st3, 'a fatal error is passed on as it is', v, Enum(s.resty, 1, [ins[0]]))
            else: s.failure(e, st3, v, w0, ins[0])
            g = e.addr('g_frame', 0, 0)
            for l in TOK: e.oblige(st3, 'existing tokens are unchanged (%s)' % l, eq(e.hread(st3, l, g), e._hread(None, l, t0[l], g)), 'frame')
            w1 = s.window(e, s.cellval(e, st3, ctx))
            e.oblige(st3, "the context's window is unchanged", And(eq(w0[0], w1[0]), eq(w0[1], w1[1])), 'frame')
            e.oblige(st3, 'nothing is run and no variable is set', not st3.ev)
            return []
        c = models.C({}, [f, Agg(None, ins)], [], s.resty)
        _, fn, a = models.inline(e, st2, c, fn, c.vals)
        st2.ev = ()
        st2.stack = st2.stack[:1] + ((fn, 0, None, cont),)
        st2.loc = {k: x for k, x in st2.loc.items() if k[0] < 0}
        for i, x in enumerate(a): st2.loc[(1, i + 1)] = x
        e.run([st2])


class GAssertIf(Guard):
    path = D + 'assert_if'
    def success(s, e, st, v, t, ms, me):
        x = s.expect_shape(e, st, 'a match becomes an error token', v, 'Token')[0].a
        errtoken(s, e, st, x, s.msg, ms, me)
    def failure(s, e, st, v, w, f): s.same(e, st, 'a failure consumes nothing', v, skip(s, e))


class GAssertIfNot(Guard):
    path = D + 'assert_if_not'
    def success(s, e, st, v, t, ms, me): s.same(e, st, 'a match consumes nothing', v, skip(s, e))
    def failure(s, e, st, v, w, f):
        x = s.expect_shape(e, st, 'a failure becomes an error token', v, 'Token')[0].a
        errtoken(s, e, st, x, s.msg, w[0], w[0])


class GFatalIf(Guard):
    path = D + 'fatal_if'
    def fatal(s, e, st, v, a, b):
        x = s.expect_shape(e, st, 'it becomes a fatal error', v, 'Error')[0]
        x = e.ex(x)
        names = [n for n, _ in e.T[x.ty]['variants'][0]['fields']]
        e.oblige(st, 'the error carries the message, formatted for its place', eq(models.sv(e, st, x.fs[names.index('message')]), e.S.touch(models.errstr(s.parser, s.msg, ival(a), ival(b)))))
        r = e.ex(x.fs[names.index('range')])
        ok = isinstance(r, Enum) and r.v == 1
        e.oblige(st, 'the error carries its place', ok)
        if ok: r = e.ex(r.fs[0]); e.oblige(st, 'its place is the right one', And(eq(e.ex(r.fs[0]), a), eq(e.ex(r.fs[1]), b)))
    def success(s, e, st, v, t, ms, me): s.fatal(e, st, v, ms, me)
    def failure(s, e, st, v, w, f): s.same(e, st, 'a failure consumes nothing', v, skip(s, e))


class GFatalIfNot(GFatalIf):
    path = D + 'fatal_if_not'
    def success(s, e, st, v, t, ms, me): s.same(e, st, 'a match consumes nothing', v, skip(s, e))
    def failure(s, e, st, v, w, f): s.fatal(e, st, v, w[0], w[1])


class GMap(Guard):
    path = D + 'map_both'
    def success(s, e, st, v, t, ms, me): s.same(e, st, 'a match is handed to the function given for matches', v, s.Ok(e, 'Token', s.tok_in))
    def failure(s, e, st, v, w, f): s.same(e, st, 'a failure is handed to the function given for failures', v, Enum(s.resty, 1, [f]))


class GMapOne(GMap):
    path = D + 'map_one'
    def failure(s, e, st, v, w, f): s.same(e, st, 'without a function for failures, a failure stays that failure', v, Enum(s.resty, 1, [f]))


class FatalGuard:
    """C08: the function for failures passes a fatal error on as it is"""
    id = 'C08'
    def check(s, e, st, w):
        names = [n for n, _ in e.T[w.ty]['variants'][0]['fields']]
        g = e.ex(w.fs[names.index('failure_func')])
        if isinstance(g, Enum) and g.v == 1: s.runfn(e, st, e.ex(g.fs[0]), False, 'Error')
        else: e.oblige(st, 'a fatal error is passed on as it is', eq(g.v if isinstance(g, Enum) else g.tag, 0))


FATAL = [type('Fatal_' + c.__name__[1:], (FatalGuard, c), {}) for c in (GAssertIf, GAssertIfNot)]
ALL = CTORS + FATAL + [TokenRes, ErrorRes, GAssertIf, GAssertIfNot, GFatalIf, GFatalIfNot, GMap, GMapOne]
