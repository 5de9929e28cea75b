"""C17: what the functions inside the script grammar (src/script/v1/matchers) make of the tokens they are handed.  Each is
a closure given to Map!; rustc compiles one copy per use of the grammar macro, and every copy is verified."""
from .contract import *
from . import models, loops
from .script import ScriptFn
from .tree import dt, Walk_
from .macros import errtoken

G = 'src/script/v1/matchers/'
MAX = (1 << 64) - 1
AS = z3.ArraySort(Str, Str); AB = z3.ArraySort(Str, B)
SPAN = dt('Span', ('some', B), ('a', I), ('b', I))
ATTR = dt('Attrs', ('has', AB), ('val', AS))
VERS = dt('Version', ('set', B), ('at', I))


class Fold(Walk_):
    """like Walk_, over one list of children; step gives the next accumulator"""
    def __init__(s, name, acc, step):
        super().__init__(name, acc); s.step = step
    def g(s, c, e, w, k, a):
        k = ival(k)
        key = (s.name, w.get_id(), k.get_id(), a.get_id())
        t = s.G(w, k, a)
        if key not in e.opq:
            e.opq[key] = t; e.keep += [w, k, a, t]
            e.fact(t == z3.If(k >= s.n(c, e, w), a, s.G(w, z3.simplify(k + 1), s.step(c, e, s.child(c, e, w, k), k, a))))
        return t


def span_step(s, e, x, k, a):
    r = lambda l: e._hread(None, l, s.T0[l], x)
    part = bval(eq(r('name'), e.S.lit('Part')))
    ms, me = ival(r('ms')), ival(r('me'))
    e.fact(z3.Implies(z3.And(part, k >= 0, k < SPANF.n(s, e, s.W)), z3.And(ms >= 0, ms <= me, me < MAX)))
    e.fact(z3.Implies(z3.And(part, SPAN.some(a)), z3.And(SPAN.a(a) <= ms, SPAN.b(a) <= me)))
    return z3.If(part, SPAN.mk(z3.BoolVal(True), z3.If(SPAN.some(a), SPAN.a(a), ms), me), a)


def attr(s, e, x, k):
    """name and value of the Attribute token x"""
    kid = lambda i: SPANF.child(s, e, x, i)
    n, v = kid(0), kid(1)
    e.fact(z3.Implies(z3.And(k >= 0, k < ATTRF.n(s, e, s.A)), z3.And(ival(e._hread(None, 'clen', s.T0['clen'], x)) >= 2, x != s.W, n != s.W, v != s.W)))
    return tv(s, e, n), tv(s, e, v)


def attr_step(s, e, x, k, a):
    n, v = attr(s, e, x, k)
    return ATTR.mk(z3.Store(ATTR.has(a), n, True), z3.Store(ATTR.val(a), n, v))


def vers_step(s, e, x, k, a):
    n, v = attr(s, e, x, k)
    isv = bval(eq(n, e.S.lit('version')))
    return VERS.mk(z3.Or(VERS.set(a), isv), z3.If(isv, x, VERS.at(a)))


SPANF, ATTRF, VERSF = Fold('span_of_parts', SPAN, span_step), Fold('attributes_of', ATTR, attr_step), Fold('version_of', VERS, vers_step)


def tv(s, e, a):
    """Token::get_value, in the state the function started in"""
    r = lambda l: e._hread(None, l, s.T0[l], a)
    k = e.S.lit('__value')
    sel = e.S.touch(z3.simplify(z3.Select(r('aval'), k)))
    return If(simp(z3.Select(r('ahas'), k)), sel, If(r('vset'), r('val'), If(And(r('pin'), simp(z3.Select(r('ahas'), k))), sel, r('capv'))))


class GrammarFn(ScriptFn):
    id = 'C17'; file = None
    def fns(s, prog):
        r = []
        for f in prog.fns:
            if f.file == G + s.file and f.closure and f.argc == 4 and '::promoted[' not in f.key and 'MatcherFailure' not in prog.T[f.locals[2]]['s']: r.append(f)
        if not r: raise LookupError('no function in ' + s.file)
        return r
    def fn(s, prog): return s.fns(prog)[0]
    def start(s, prog, timeout):
        e, st = s.build(prog, timeout)
        fns = s.fns(prog)
        s.args = [s.arg(e, fns[0], i, 'a%d' % i) for i in range(1, 5)]
        s.W = e.ex(s.args[1]).a
        cv = s.wellformed(e, st, s.args[2])
        s.parser = s.cget(e, cv, 'parser').a
        T0 = lambda l: e._hread(None, l, st.tok[l], s.W)
        s.T0 = dict(st.tok)
        src = e.S.touch(psource(T0('parser')))
        e.assume(st, T0('pin') == False)
        e.assume(st, And(ival(T0('ms')) <= ival(T0('me')), ival(T0('me')) <= slen(src), bval(e.S.isb(src, T0('ms'))), bval(e.S.isb(src, T0('me')))))
        s.notes.append('a grammar function is handed a standard token whose range lies in its source')
        s.prep(e, st)
        out = []
        for i, f in enumerate(fns):
            a = list(s.args)
            if i: a[0] = s.arg(e, f, 1, 'a1_%d' % i)
            out.append(s.enter(e, st.copy(), f, a))
        return e, out
    def prep(s, e, st): pass
    def token(s, e, st, v): s.same(e, st, 'the result is the token', v, s.Ok(e, 'Token', e.ex(s.args[1])))
    def errtok(s, e, st, v, msg, a, b):
        t = s.expect_shape(e, st, 'the result is an error token', v, 'Token')[0].a
        errtoken(s, e, st, t, msg, a, b)
    def only(s, e, st, leaves=()):
        """nothing but these leaves of the token changes"""
        g = e.addr('g_frame', 0, 0)
        for l in TOK:
            want = e._hread(None, l, s.T0[l], g)
            got = e.hread(st, l, g)
            e.oblige(st, 'nothing else changes (%s)' % l, Or(eq(g, s.W), eq(got, want)) if l in leaves else eq(got, want), 'frame')
        e.oblige(st, 'nothing is run and no variable is set', not st.ev)
    # loops over a list of children
    def pos(s, e, W, hd, M):
        out = [(p, lambda st, p=p: W.get(st, p).i, lambda st, p=p: W.get(st, p).n) for p, it in iters(W, hd)]
        if not out:
            for p, (kind, v, ty) in M.items():
                if kind == 'leaf' and not isinstance(v, RcV) and isinstance(loops.tyint(e, ty), int): out.append((p, lambda st, p=p: ival(W.get(st, p)), None))
        return out


class RegexToken(GrammarFn):
    """the token of a regular expression carries the text between its slashes"""
    file = 'regex_matcher.rs'
    def prep(s, e, st): s.notes.append('the parts of a regular expression token are in document order')
    def a0(s): return SPAN.mk(z3.BoolVal(False), z3.IntVal(MAX), z3.IntVal(MAX))
    def loop_cands(s, e, entry, hd, head, W, M):
        out = []
        ints = [p for p, (k, v, ty) in M.items() if k == 'leaf' and isinstance(loops.tyint(e, ty), int)]
        get = lambda st, p: ival(W.get(st, p))
        for q, k, n in s.pos(e, W, hd, M):
            if n is not None: out.append((('n', q), lambda st, n=n: ival(n(st)) == SPANF.n(s, e, s.W)))
            for p1 in ints:
                for p2 in ints:
                    if p1 == p2 or q in (p1, p2): continue
                    def f(st, k=k, p1=p1, p2=p2):
                        a, b = get(st, p1), get(st, p2)
                        m = SPAN.mk(z3.Not(a == MAX), a, b)
                        return And(SPANF.g(s, e, s.W, 0, s.a0()) == SPANF.g(s, e, s.W, k(st), m), (a == MAX) == (b == MAX))
                    out.append((('span', q, p1, p2), f))
        return out
    def post(s, e, st, v):
        s.token(e, st, v)
        f = SPANF.g(s, e, s.W, 0, s.a0())
        P = e._hread(None, 'parser', s.T0['parser'], s.W)
        txt = z3.If(SPAN.some(f), e.S.touch(rtext(P, SPAN.a(f), SPAN.b(f))), EMPTY)
        e.fact(rtext(P, z3.IntVal(MAX), z3.IntVal(MAX)) == EMPTY)      # past the end of any source (contract of to_string, C13)
        e.fact(z3.Implies(z3.Not(SPAN.some(f)), z3.And(SPAN.a(f) == MAX, SPAN.b(f) == MAX)))
        e.oblige(st, "the token's value is the source text from its first part to its last", bval(eq(models.tok_value(e, st, s.W), txt)))
        k = e.str('g_attr'); V = e.S.lit('__value')
        h0, v0 = (e._hread(None, l, s.T0[l], s.W) for l in ('ahas', 'aval'))
        h1, v1 = (e.hread(st, l, s.W) for l in ('ahas', 'aval'))
        e.oblige(st, 'its other attributes stay', z3.Implies(k != V, z3.And(z3.Select(h1, k) == z3.Select(h0, k), z3.Select(v1, k) == z3.Select(v0, k))))
        s.only(e, st, ('ahas', 'aval', 'vset', 'val'))


class AttrFn(GrammarFn):
    def prep(s, e, st):
        s.K = e.S.lit('Attributes')
        s.has = models.fchas(s.W, s.K); s.A = models.fcget(s.W, s.K); e.keep.append(s.A)
        e.assume(st, z3.Implies(s.has, s.A != s.W))
        s.notes.append('every Attribute token has two children, a name and a value (grammar), and no token is its own descendant')
    def a0(s, e): return ATTR.mk(e._hread(None, 'ahas', s.T0['ahas'], s.W), e._hread(None, 'aval', s.T0['aval'], s.W))
    def acc(s, e, st): return ATTR.mk(e.hread(st, 'ahas', s.W), e.hread(st, 'aval', s.W))
    def vacc(s, e, x):
        x = e.ex(x); b = bval(models.optset(x)); y = models.optval(e, x, None)
        return VERS.mk(b, z3.If(b, y.a, z3.IntVal(0)) if y is not None else z3.IntVal(0))
    V0 = VERS.mk(False, 0)
    def loop_cands(s, e, entry, hd, head, W, M):
        out = []
        for l in TOK:
            if (('tok', l),) in M: out.append((('only', l), lambda st, l=l: st.tok[l] == z3.Store(entry.tok[l], s.W, z3.Select(st.tok[l], s.W))))
        opts = []
        for root, v, ty in list(W.roots(hd)):
            if ty is not None and e.T[e.strip(ty)].get('path') == 'core::option::Option' and any(p[0] == root for p in M) and 'dyn token::Token' in e.T[e.strip(ty)]['s']: opts.append((root,))
        for q, k, n in s.pos(e, W, hd, M):
            if n is not None: out.append((('n', q), lambda st, n=n: ival(n(st)) == ATTRF.n(s, e, s.A)))
            out.append((('fold', q), lambda st, k=k: ATTRF.g(s, e, s.A, 0, s.a0(e)) == ATTRF.g(s, e, s.A, k(st), s.acc(e, st))))
            for o in opts: out.append((('known', o), lambda st, o=o: VERS.set(s.vacc(e, W.get(st, o))) == z3.Select(e.hread(st, 'ahas', s.W), e.S.lit('version'))))
            for o in opts: out.append((('version', q, o), lambda st, k=k, o=o: VERSF.g(s, e, s.A, 0, s.V0) == VERSF.g(s, e, s.A, k(st), s.vacc(e, W.get(st, o)))))
        return out
    def final(s, e): return z3.If(s.has, ATTRF.g(s, e, s.A, 0, s.a0(e)), s.a0(e))
    def version(s, e): return z3.If(s.has, VERSF.g(s, e, s.A, 0, s.V0), s.V0)


class DefinitionToken(AttrFn):
    """a definition's token carries the attributes written, a later one of the same name winning"""
    file = 'pattern_definition.rs'
    def post(s, e, st, v):
        s.token(e, st, v)
        r = s.final(e)
        e.oblige(st, 'the token has exactly the attributes written, besides those it had', e.hread(st, 'ahas', s.W) == ATTR.has(r))
        e.oblige(st, 'they have the values written, the last one winning', e.hread(st, 'aval', s.W) == ATTR.val(r))
        s.only(e, st, ('ahas', 'aval'))


class HeaderToken(AttrFn):
    """a scope header carries its attributes; without a version that is a whole number it is an error"""
    file = 'adextopa_scope.rs'
    def prep(s, e, st):
        super().prep(e, st)
        e.assume(st, e.hread(st, 'ahas', s.W) == z3.K(Str, z3.BoolVal(False)))
        s.notes.append("a scope header's token starts without attributes")
    def post(s, e, st, v):
        r = s.final(e); V = e.S.lit('version')
        T0 = lambda l, a: e._hread(None, l, s.T0[l], a)
        e.oblige(st, 'the token has exactly the attributes written, besides those it had', e.hread(st, 'ahas', s.W) == ATTR.has(r))
        e.oblige(st, 'they have the values written, the last one winning', e.hread(st, 'aval', s.W) == ATTR.val(r))
        h = z3.Select(ATTR.has(r), V); w = e.S.touch(z3.simplify(z3.Select(ATTR.val(r), V)))
        if not s.is_(e, st, h):
            P = e.S.lit('EndOfScopeHeader')
            end = z3.If(models.fchas(s.W, P), ival(T0('me', models.fcget(s.W, P))), ival(T0('me', s.W)))
            s.errtok(e, st, v, e.S.lit("Adextopa scope must have a 'version' attribute"), T0('ms', s.W), simp(end))
        elif not s.is_(e, st, models.parseok(w)):
            u = s.version(e)
            s.errtok(e, st, v, e.S.lit("Adextopa 'version' attribute must be a valid integer number"), T0('ms', VERS.at(u)), T0('me', VERS.at(u)))
        else: s.token(e, st, v)
        s.only(e, st, ('ahas', 'aval'))


class PatternScopeToken(GrammarFn):
    """text after the last pattern that is no pattern is an error"""
    file = 'pattern_scope.rs'
    def post(s, e, st, v):
        T0 = lambda l: e._hread(None, l, s.T0[l], s.W)
        src = e.S.touch(psource(T0('parser'))); me = ival(T0('me'))
        if s.is_(e, st, me < slen(src)):
            w = e.S.cat(e.S.lit('Syntax error. Expected a pattern defintion, but instead found: '), e.S.sub(src, me, slen(src)))
            cv = s.cellval(e, st, s.args[2]); a, b = s.window(e, cv)
            s.errtok(e, st, v, w, a, a)
        else: s.token(e, st, v)
        s.only(e, st)


class ScriptToken(GrammarFn):
    """a script with neither a scope header nor a pattern is an error, and so is text after a header that is no pattern"""
    file = 'script.rs'
    def post(s, e, st, v):
        T0 = lambda l: e._hread(None, l, s.T0[l], s.W)
        has = lambda n: models.fchas(s.W, e.S.lit(n))
        src = e.S.touch(psource(T0('parser'))); me = ival(T0('me'))
        if not s.is_(e, st, Or(has('AdextopaScope'), has('PatternScope'))): s.errtok(e, st, v, e.S.lit('Nothing to parse. No scopes found.'), T0('ms'), me)
        elif s.is_(e, st, Or(has('PatternScope'), has('Error'))): s.token(e, st, v)
        else:
            rest = e.S.touch(models.UFN['trim'](e.S.sub(src, me, slen(src))))
            if s.is_(e, st, eq(rest, EMPTY)): s.token(e, st, v)
            else:
                a, b = s.window(e, s.cellval(e, st, s.args[2]))
                s.errtok(e, st, v, e.S.cat(e.S.lit('Syntax error. Expected a pattern defintion, but instead found: '), rest), a, a)
        s.only(e, st)


ALL = [RegexToken, DefinitionToken, HeaderToken, PatternScopeToken, ScriptToken]
