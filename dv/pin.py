"""C18: Pin.  parse_offset and the empty-offset test are verified on their own; PinPattern::exec against their contracts."""
from .contract import *
from .simple import *
from .text import new_token
import re as _re, itertools

EMPTIES = ['', '+', '-', '+0', '-0']


class IsEmpty(FnContract):
    """an offset is empty exactly when it is nothing, +, -, +0 or -0"""
    id = 'C18'; path = 'matchers::pin::is_empty_offset'
    def setup(s, e, st, args):
        lit = models.static_regex(e, '<matchers::pin::EMPTY_OFFSET as core::ops::deref::Deref>')
        if lit is None: raise Unsupported('the empty offset regex is not where it was')
        s.lit = lit; k = models.rxmk(e.S.lit(lit)); t = models.sv(e, st, args[0])
        s.isany = simp(z3.Or(*[t == e.S.lit(x) for x in EMPTIES]))
        s.notes.append('the empty-offset regex finds something in exactly +, -, +0 and -0 among the non-empty texts: enumerated over all texts of at most 5 characters from + - 0 1 a newline (bounded)')
        s.ok = False
        try:
            rx = _re.compile(lit.replace('$', r'\Z'))      # $ without m is the end of the text in the regex crate
            s.ok = all((rx.search(''.join(t)) is not None) == (''.join(t) in EMPTIES) for n in range(1, 6) for t in itertools.product('+-01a\n', repeat=n))
        except Exception: pass
        ne = simp(t != EMPTY)
        if s.ok: e.assume(st, Implies(ne, eq(models.rxm(k, t), s.isany)))
    def post(s, e, st, v):
        e.oblige(st, 'the regex of empty offsets is + - +0 -0', s.ok, 'bounded')
        e.oblige(st, 'an offset is empty exactly when it is nothing, +, -, +0 or -0', eq(v, s.isany))


empt = z3.Function('empty_offset', core.Str, B)


def num(e, t, a, S): return S.touch(t)


class ParseOffset(FnContract):
    """empty: the default; +n and -n: relative to the start; n: absolute"""
    id = 'C18'; path = 'matchers::pin::parse_offset'
    def override2(s, e, st, c):
        if c.rp == 'matchers::pin::is_empty_offset': return empt(models.sv(e, st, c.vals[0]))
    def setup(s, e, st, args):
        t = models.sv(e, st, args[2]); s.t = t; S = e.S
        s.emp = empt(t); e.keep.append(s.emp)
        e.assume(st, simp(z3.Or(s.emp, z3.And(slen(t) >= 1, bval(S.isb(t, 1))))))
        e.assume(st, z3.Implies(t == EMPTY, s.emp))
        s.pre = S.sub(t, 0, 1); s.rest = S.sub(t, 1, S.len(t))
        s.plus = simp(s.pre == S.lit('+')); s.minus = simp(s.pre == S.lit('-'))
        start = ival(args[0]); pv, pw = models.parsev(s.rest), models.parsev(t)
        rel = Or(s.plus, s.minus)
        # the text is of that form, and the position it denotes exists
        e.assume(st, Or(s.emp, z3.If(bool3(rel), z3.And(models.parseok(s.rest), pv >= 0, z3.Implies(bool3(s.plus), start + pv <= UMAX), z3.Implies(bool3(s.minus), pv <= start)), models.parseok(t))))
        s.rel = rel
    def post(s, e, st, v):
        start = ival(s.args[0]); pv = models.parsev(s.rest); pw = models.parsev(s.t)
        s.where(e, st, 'an empty offset is the default', s.emp, v, s.args[1])
        n = core.Not(s.emp)
        s.where(e, st, '+n is n after the start', And(n, s.plus), v, simp(start + pv))
        s.where(e, st, '-n is n before the start', And(n, s.minus, core.Not(s.plus)), v, simp(start - pv))
        s.where(e, st, 'n is n', And(n, core.Not(s.rel)), v, pw)


def bool3(x): return x if isz(x) else z3.BoolVal(bool(x))


po = z3.Function('pin_offset', I, I, core.Str, I)


class Pin(ExecContract):
    id = 'C18'; cls = 'matchers::pin::PinPattern'
    def override2(s, e, st, c):
        if c.rp == 'matchers::pin::parse_offset':
            r = po(ival(e.ex(c.vals[0])), ival(e.ex(c.vals[1])), models.sv(e, st, c.vals[2])); e.keep.append(r)
            if r.get_id() not in e.rng: e.rng[r.get_id()] = None; e.fact(r >= 0); e.fact(r <= UMAX)
            return r
    def win(s, e, t):
        sep = e.S.lit('..')
        n = models.splitn(t, sep); a = models.splita(t, sep)
        p0 = e.S.touch(z3.Select(a, 0)); p1 = e.S.touch(z3.Select(a, 1))
        ns = po(ival(s.w0), ival(s.w0), p0)
        return ns, z3.If(n > 1, po(ns, ival(s.w1), p1), ival(s.w1))
    def post(s, e, st, v):
        fe = [x for x in st.ev if x.kind == 'fetch']
        e.oblige(st, 'the offset is evaluated exactly once', len(fe) == 1)
        f = fe[0]
        a, b = s.window(e, f.cv)
        e.oblige(st, 'it is evaluated at the caller\'s window', And(eq(a, s.w0), eq(b, s.w1)))
        e.oblige(st, "it is evaluated in the caller's scope", eq(f.scope, s.scope.a))
        i, x = f.case
        ex = s.execs(st)
        if e.T[f.res.ty]['variants'][i]['name'] != 'String':
            e.oblige(st, 'a matcher is no offset: nothing runs', not ex)
            s.expect_shape(e, st, 'a matcher is no offset: fatal error', v, 'Error'); return
        ns, ne = s.win(e, x)
        p = e.ex(s.fld(e, 'pattern'))
        has = e.case(st, eq(p.tag, 1))
        if has:
            ev = s.once(e, st, e.ex(e.payload(p, 1, 0)).a, window=False)
            a, b = s.window(e, ev.cv)
            e.oblige(st, 'the pattern runs from the position the offset denotes', eq(a, ns))
            e.oblige(st, 'the pattern runs up to the end the offset denotes', eq(b, ne))
            e.oblige(st, 'it reads the same source', eq(s.cget(e, ev.cv, 'parser').a, s.parser))
            e.oblige(st, "its context carries the caller's scope", eq(s.cget(e, ev.cv, 'scope').a, s.ctxscope))
            s.same(e, st, 'the result is passed on unchanged', v, ev.res)
        else:
            e.oblige(st, 'nothing runs', not ex)
            t = s.expect_shape(e, st, 'a pin without a pattern yields a token', v, 'Token')[0].a
            T = s.tok(e, st, t)
            e.oblige(st, 'it spans the window the offset denotes', And(eq(T.cs, ns), eq(T.ms, ns), eq(T.ce, ne), eq(T.me, ne)))
            e.oblige(st, 'its text is the text of that window', And(eq(T.capv, e.S.touch(rtext(s.parser, ns, ne))), eq(T.matv, e.S.touch(rtext(s.parser, ns, ne)))))
            e.oblige(st, 'it is discarded by whatever contains it', eq(T.pin, True))
            e.oblige(st, 'it carries the name', eq(T.name, s.fld(e, 'name')))
            e.oblige(st, 'it has no children and no flags', And(eq(T.clen, 0), eq(T.flags, z3.BitVecVal(0, 8))))
        s.frame(e, st)


class PinConsuming(FnContract):
    id = 'C18'
    def fn(s, prog): return prog.impl[('matcher::Matcher', 'is_consuming', 'matchers::pin::PinPattern')]
    def post(s, e, st, v): e.oblige(st, 'a pin reports itself as non-consuming', eq(v, False))


ALL = [IsEmpty, ParseOffset, Pin, PinConsuming, er('Pin', P + 'pin::PinPattern', override2=Pin.override2), nr('Pin', P + 'pin::PinPattern', override2=Pin.override2)]
