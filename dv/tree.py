"""Contracts of the functions that walk token trees.  What such a walk yields is given by a recursive specification
function R over the tree; the recursive call is replaced by R, the loop over the children by its unfolding G:
G(w,k,a) = a past the last child, else G(w, k+1, R(child k of w, a))."""
from .contract import *
from . import loops
from .simple import ErrorRule, NameRule

AI = z3.ArraySort(I, I)


def dt(name, *fields):
    d = z3.Datatype(name); d.declare('mk', *fields); return d.create()


class Walk_:
    """a recursive specification function over token trees with accumulator sort acc"""
    def __init__(s, name, acc, stop=None):
        s.acc = acc; s.name = name; s.stop = stop
        s.R = z3.Function(name, I, acc, acc)
        s.G = z3.Function(name + '_from', I, I, acc, acc)
    def child(s, c, e, w, k):
        arr = e._hread(None, 'carr', c.T0['carr'], w)
        x = z3.simplify(z3.Select(arr, k)) if not isinstance(k, int) else z3.Select(arr, z3.IntVal(k))
        e.keep.append(x)
        if e.frng(x) is None: e.setrng(x, 0, 0)
        return x
    def n(s, c, e, w): return ival(e._hread(None, 'clen', c.T0['clen'], w))
    def g(s, c, e, w, k, a):
        """G(w,k,a), unfolded once"""
        k = ival(k)
        key = (s.name, w.get_id(), k.get_id(), a.get_id())
        t = s.G(w, k, a)
        if key not in e.opq:
            e.opq[key] = t; e.keep += [w, k, a, t]
            nx = s.R(s.child(c, e, w, k), a)
            step = s.G(w, z3.simplify(k + 1), nx)
            if s.stop is not None: step = z3.If(s.stop(nx), nx, step)
            e.fact(t == z3.If(k >= s.n(c, e, w), a, step))
        return t


# ------------------------------------------------------------------ Discard: collecting the errors of a tree
ERR = dt('ErrAcc', ('len', I), ('arr', AI), ('ms', I), ('me', I))
DERR = Walk_('errors_of', ERR)


def erracc(e, st, E):
    return ERR.mk(ival(e.hread(st, 'clen', E)), e.hread(st, 'carr', E), ival(e.hread(st, 'ms', E)), ival(e.hread(st, 'me', E)))


def set_erracc(e, st, E, a):
    for l, f in (('clen', ERR.len), ('carr', ERR.arr), ('ms', ERR.ms), ('me', ERR.me)): e.hwrite(st, l, E, z3.simplify(f(a)))
    e.hwrite(st, 'matv', E, e.S.touch(rtext(e.hread(st, 'parser', E), ival(e.hread(st, 'ms', E)), ival(e.hread(st, 'me', E)))))


def consistent(e, st, E):
    return eq(e.hread(st, 'matv', E), e.S.touch(rtext(e.hread(st, 'parser', E), ival(e.hread(st, 'ms', E)), ival(e.hread(st, 'me', E)))))


CE = 'matchers::discard::collect_errors'


class DiscardErrors(FnContract):
    """the error tokens of a tree, in document order, are appended to the list and its range grows to cover them"""
    id = 'C09'; path = CE
    def setup(s, e, st, args):
        s.W = args[1].a
        s.E = e.alloc(st); e.bump(st)
        e.assume(st, e.hread(st, 'pin', s.E) == False)
        e.assume(st, consistent(e, st, s.E))
        s.a0 = erracc(e, st, s.E)
        s.old = dict(st.tok)
        return s._put(args)
    def _put(s, args):
        return (RcV(s.E, args[0].ty), args[1])
    def override2(s, e, st, c):
        if c.rp == CE and len(st.stack) >= 1:
            E = e.ex(c.vals[0]).a; w = e.ex(c.vals[1]).a
            e.oblige(st, 'errors are collected into the same list', eq(E, s.E), 'pre')
            e.oblige(st, 'the list is not part of the walked tree', w != s.E, 'pre')
            e.oblige(st, "the list's text agrees with its range", consistent(e, st, s.E), 'pre')
            set_erracc(e, st, s.E, DERR.R(w, erracc(e, st, s.E)))
            return Agg(c.dty, [])
    def loop_cands(s, e, entry, hd, head, W, M):
        out = []
        for l in TOK:
            p = (('tok', l),)
            if p in M:
                out.append((('only', l), lambda st, l=l: st.tok[l] == z3.Store(entry.tok[l], s.E, z3.Select(st.tok[l], s.E))))
        out.append((('text',), lambda st: consistent(e, st, s.E)))
        a1 = erracc(e, entry, s.E)
        for p, it in iters(W, hd):
            out.append((('fold', p), lambda st, p=p: DERR.g(s, e, s.W, 0, a1) == DERR.g(s, e, s.W, W.get(st, p).i, erracc(e, st, s.E))))
            out.append((('n', p), lambda st, p=p: ival(W.get(st, p).n) == DERR.n(s, e, s.W)))
        return out
    def post(s, e, st, v):
        T0 = lambda l, a: e._hread(None, l, s.T0[l], a)
        iserr = simp((T0('flags', s.W) & 0x02) != 0)
        a = s.a0
        wms, wme = ival(T0('ms', s.W)), ival(T0('me', s.W))
        a1 = ERR.mk(ERR.len(a) + 1, z3.Store(ERR.arr(a), ERR.len(a), s.W), z3.If(wms < ERR.ms(a), wms, ERR.ms(a)), z3.If(wme > ERR.me(a), wme, ERR.me(a)))
        a1 = z3.simplify(z3.If(iserr, a1, a))
        r = DERR.g(s, e, s.W, 0, a1)
        f = erracc(e, st, s.E)
        e.oblige(st, 'as many errors are listed as the tree has', ERR.len(f) == ERR.len(r))
        e.oblige(st, 'the errors listed are those of the tree, the token itself first, then its children in order', ERR.arr(f) == ERR.arr(r))
        e.oblige(st, 'the range of the list covers them', And(ERR.ms(f) == ERR.ms(r), ERR.me(f) == ERR.me(r)))
        e.oblige(st, "the list's text agrees with its range", consistent(e, st, s.E))
        for l in TOK:
            if l not in ('clen', 'carr', 'ms', 'me', 'matv'):
                e.oblige(st, 'nothing else of the list changes (%s)' % l, eq(e.hread(st, l, s.E), e._hread(st, l, s.T0[l], s.E)))
        s.frame(e, st, 'the walked tree is unchanged')


class Discard(ExecContract):
    id = 'C09'; cls = 'matchers::discard::DiscardPattern'
    payload = True
    def after_exec(s, e, st, ev):
        # contract of child matchers: the ranges of a returned token lie in the source
        for x in ev.case[1:]:
            if isinstance(x, Enum) and x.v in (0, 1): x = x.fs[0]
            x = e.ex(x) if type(x) is SymV else x
            if isinstance(x, RcV) and e.istok(x.ty): e.assume(st, ival(e.hread(st, 'me', x.a)) <= slen(s.src))
        return [st]
    def override2(s, e, st, c):
        if c.rp == CE:
            E = e.ex(c.vals[0]).a; w = e.ex(c.vals[1]).a
            r = e.frng(E)
            e.oblige(st, 'errors are collected into a new list', r is not None and r[0] == 'f', 'pre')
            e.oblige(st, 'the list is not part of the walked tree', w != E, 'pre')
            e.oblige(st, "the list's text agrees with its range", And(consistent(e, st, E), eq(e.hread(st, 'pin', E), False)), 'pre')
            a = erracc(e, st, E)
            res = DERR.R(w, a); e.keep.append(res)
            e.fact(ERR.len(res) >= ERR.len(a)); e.fact(ERR.len(res) <= 2 ** 62)
            st.ev = st.ev + (Ev(kind='collect', m=w, case=(E, a, res)),)
            set_erracc(e, st, E, res)
            return Agg(c.dty, [])
    def post(s, e, st, v):
        ev = s.once(e, st, s.fld(e, 'matcher').a)
        k = ev.case[0]
        if k in ('Token', 'ProxyChildren'): s.skipped(e, st, ev, v, ev.case[1])
        elif k in ('Break', 'Continue') and ev.case[2].v in (0, 1):
            x = s.expect_shape(e, st, 'a signal stays that signal', v, k)[0]
            x = e.ex(x)
            e.oblige(st, 'the signal keeps its loop name', eq(e.ex(x.fs[0]), ev.case[1]))
            s.skipped(e, st, ev, Enum(s.resty, 0, [e.ex(x.fs[1])]), ev.case[2].fs[0])
        else: s.same(e, st, 'everything else is passed on unchanged (%s)' % k, v, ev.res)
        s.frame(e, st)
    def skipped(s, e, st, ev, v, tok):
        t = e.ex(tok).a
        me = childleaf(e, st, 'me', t, ev)
        cs = [x for x in st.ev if x.kind == 'collect']
        e.oblige(st, 'the errors of the discarded tree are collected exactly once', len(cs) == 1)
        E, a, res = cs[0].case
        e.oblige(st, 'it is the discarded tree they are collected from', eq(cs[0].m, t))
        e.oblige(st, 'the list is empty at first', eq(ERR.len(a), 0))
        e.oblige(st, 'its range is the discarded stretch', And(eq(ERR.ms(a), ival(s.w0)), eq(ERR.me(a), ival(me))))
        n = z3.simplify(ERR.len(res))
        sh = s.shape(e, v)
        if sh is None: raise Unsupported('result of unknown shape')
        if sh[0] == 'Token':
            e.oblige(st, 'a token results only where the discarded tree has errors', n > 0)
            T = s.tok(e, st, sh[1][0].a)
            e.oblige(st, 'the result is the list of errors', eq(sh[1][0].a, E))
            e.oblige(st, 'it is called Error', eq(T.name, e.S.lit('Error')))
            e.oblige(st, 'its children are exactly the errors in document order', And(eq(T.clen, n), eq(T.carr, z3.simplify(ERR.arr(res)))))
            e.oblige(st, 'its matched range covers the discarded match and the errors', And(eq(T.ms, z3.simplify(ERR.ms(res))), eq(T.me, z3.simplify(ERR.me(res)))))
            e.oblige(st, 'its captured range is the discarded stretch', And(eq(T.cs, s.w0), eq(T.ce, me)))
            e.oblige(st, 'it belongs to the same source', eq(T.parser, s.parser))
        else:
            e.oblige(st, 'a match without errors becomes a skip', sh[0] == 'Skip')
            e.oblige(st, 'the skip is taken only where there are no errors', n == 0)
            e.oblige(st, 'it skips to the end of the matched range', eq(sh[1][0], simp(ival(me) - ival(s.w0))))
        from .simple import unchanged
        unchanged(s, e, st, t, ev, name='the discarded token itself is unchanged')


class FatalDiscard(ErrorRule, ExecContract):
    cls = 'matchers::discard::DiscardPattern'; payload = True; panics_ok = True
    def override2(s, e, st, c):
        if c.rp == CE:          # runs no pattern; the list grows by any number of errors
            E = e.ex(c.vals[0]).a; res = DERR.R(e.ex(c.vals[1]).a, erracc(e, st, E)); e.keep.append(res)
            set_erracc(e, st, E, res)
            return Agg(c.dty, [])


class NamedDiscard(NameRule, FatalDiscard): id = 'C11'


def childleaf(e, st, leaf, a, ev):
    from . import simple
    return simple.childleaf(e, st, leaf, a, ev)


# ------------------------------------------------------------------ TokenVisitor
VIS = dt('VisAcc', ('n', I), ('hooks', AI), ('toks', AI), ('err', B))
fails = z3.Function('hook_call_fails', I, B)            # does the n-th hook call of this visit return an error
VISIT = Walk_('visit_of', VIS, stop=lambda a: VIS.err(a))
hookat = z3.Function('hook_for', Str, I)                # index of the first hook of that name, -1 if none
hookfrom = z3.Function('hook_for_from', I, Str, I)
TV = "token_visitor::TokenVisitor::<'a>::"


def hooks(s, e, st, selfv):
    v = models.der(e, st, selfv)
    return e.ex(v.fs[0])


def hook_unfold(s, e, st, vec, k, name):
    """index of the first hook from k on with that name"""
    t = hookfrom(ival(k), name)
    key = ('hookfrom', ival(k).get_id(), name.get_id())
    if key not in e.opq:
        e.opq[key] = t; e.keep += [t, ival(k), name]
        hn = z3.Select(vec.arrs[0], ival(k))
        e.S.touch(hn)
        e.fact(t == z3.If(ival(k) >= ival(vec.len), -1, z3.If(hn == name, ival(k), hookfrom(simp_(ival(k) + 1), name))))
    return t


def simp_(x): return z3.simplify(x)


class VisitorNew(FnContract):
    """a new visitor has no hooks"""
    id = 'C14'; path = TV + 'new'
    def post(s, e, st, v):
        v = e.ex(v); e.oblige(st, 'a new visitor has no hooks', eq(e.ex(v.fs[0]).len, 0))


class AddVisitor(FnContract):
    """the hook is added behind the ones already there, which stay"""
    id = 'C14'; path = TV + 'add_visitor'
    def setup(s, e, st, args):
        st.loc[(-1, 1)] = e.rd(st, args[0].root, args[0].path); args = list(args); args[0] = Ref(('L', -1, 1)); s.slf = args[0]
        s.vec = hooks(s, e, st, args[0]); s.name = models.sv(e, st, args[1]); s.func = args[2]
        s.i = z3.Int('i_any'); e.keep.append(s.i); e.assume(st, And(s.i >= 0, s.i < ival(s.vec.len)))
        s.old = [e.sel(st, a, s.i) for a in s.vec.arrs]
        return tuple(args)
    def post(s, e, st, v):
        new = hooks(s, e, st, s.slf)
        e.oblige(st, 'there is one hook more', eq(new.len, simp(ival(s.vec.len) + 1)))
        for a, o in zip(new.arrs, s.old): e.oblige(st, 'the hooks there were stay in place', eq(e.sel(st, a, s.i), o))
        x = e.ex(e.elem(st, new, s.vec.len)); a = e.ex(x.fs[1])
        e.oblige(st, 'the new hook has the name given', eq(models.sv(e, st, x.fs[0]), s.name))
        f = e.frng(a.a)
        if not f or f[0] != 'f': e.oblige(st, 'the new hook has a cell of its own', False); return
        w = st.cells[a.a.get_id()][1]
        n = 0
        while n < 6 and isinstance(w, (Agg, Ref)):
            w = e.ex(w.fs[-1]) if isinstance(w, Agg) else e.ex(e.rd(st, w.root, w.path)); n += 1
        e.oblige(st, 'the new hook calls the function given', same_value(w, s.func))


def same_value(a, b):
    if isinstance(a, SymV) and isinstance(b, SymV): return a.name == b.name
    if isz(a) and isz(b): return eq(a, b)
    if isinstance(a, DynV): return same_value(a.val, b)
    if isinstance(b, DynV): return same_value(a, b.val)
    raise Unsupported('function value %r' % (a,))


class FindHook(FnContract):
    """the first hook registered under that name"""
    id = 'C14'; path = TV + 'find_hook'
    def setup(s, e, st, args):
        s.vec = hooks(s, e, st, args[0]); s.name = models.sv(e, st, args[1])
    def loop_cands(s, e, entry, hd, head, W, M):
        return [(('fold', p), lambda st, p=p: hook_unfold(s, e, st, s.vec, 0, s.name) == hook_unfold(s, e, st, s.vec, W.get(st, p).i, s.name)) for p, it in iters(W, hd)] + \
               [(('n', p), lambda st, p=p: ival(W.get(st, p).n) == ival(s.vec.len)) for p, it in iters(W, hd)]
    def post(s, e, st, v):
        v = e.ex(v)
        r = hook_unfold(s, e, st, s.vec, 0, s.name)
        if not isinstance(v, Enum): raise Unsupported('result of unknown shape')
        if v.v == 0: e.oblige(st, 'none is found only where no hook has the name', r == -1)
        else:
            e.oblige(st, 'a hook is found only where one has the name', r >= 0)
            e.oblige(st, 'the hook found is the first of that name', eq(e.ex(v.fs[0]).a, e.sel(st, s.vec.arrs[1], r)))


def hook_of(e, st, dty, vec, name):
    """contract of find_hook at a call"""
    i = hookat(name)
    if ('hookat', i.get_id()) not in e.opq:
        e.opq[('hookat', i.get_id())] = i
        e.fact(i >= -1); e.fact(i < ival(vec.len))
    a = z3.Select(vec.arrs[1], i); e.keep.append(a)
    return i, a, models.option(e, dty, simp(i >= 0), RcV(a, e.T[e.T[dty]['args'][0]]['args'][0]))


def errvalue(e, dty, n):
    """the error the n-th hook call returned"""
    et = e.T[dty]['args'][1]
    lv = e.leafs(et)
    vals = []
    for i, (p, k, t) in enumerate(lv):
        f = z3.Function('hook_err_%d' % i, I, e.ksort(k))
        x = f(ival(n)); e.keep.append(x)
        if k == 'str': e.S.touch(x)
        vals.append(x)
    return e.build(et, lv, vals)


class VisitBase(FnContract):
    id = 'C14'
    def visacc(s, st): g = st.ghost; return VIS.mk(ival(g['n']), g['hooks'], g['toks'], bval(g['err']))
    def putacc(s, st, a):
        st.ghost['n'] = z3.simplify(VIS.n(a)); st.ghost['hooks'] = z3.simplify(VIS.hooks(a)); st.ghost['toks'] = z3.simplify(VIS.toks(a))
        st.ghost['err'] = z3.simplify(VIS.err(a))
    def begin(s, e, st):
        n = z3.Int('n0'); e.keep.append(n); e.fact(n >= 0)
        st.ghost.update({'n': n, 'hooks': z3.Const('hooks0', AI), 'toks': z3.Const('toks0', AI), 'err': False})
        s.acc0 = s.visacc(st)
    def called(s, a, hook, tok, err):
        n = VIS.n(a)
        return VIS.mk(n + 1, z3.Store(VIS.hooks(a), n, hook), z3.Store(VIS.toks(a), n, tok), err)
    def override2(s, e, st, c):
        if c.rp == TV + 'find_hook':
            vec = hooks(s, e, st, c.vals[0])
            return hook_of(e, st, c.dty, vec, models.sv(e, st, c.vals[1]))[2]
        if c.rp == TV + '_visit':
            d = e.ex(c.vals[1]); w = e.ex(c.vals[2]).a
            e.oblige(st, 'the same default hook is used throughout', s.dflt_ok(e, st, d), 'pre')
            e.oblige(st, 'no token is visited after an error', core.Not(bval(st.ghost['err'])), 'pre')
            a = VISIT.R(w, s.visacc(st)); e.keep.append(a)
            s.putacc(st, a)
            out = []
            for s2, f in models.fork(e, st, st.ghost['err']):
                if f: out.append((s2, Enum(c.dty, 1, [errvalue(e, c.dty, simp(ival(s2.ghost['n']) - 1))])))
                else: out.append((s2, Enum(c.dty, 0, [Agg(e.T[c.dty]['args'][0], [])])))
            return out
    def on_fn(s, e, st, c, ref, v):
        # a hook is called
        r = ref
        n = 0
        while True:
            r = e.ex(r)
            if isinstance(r, RcV): h = r.a; break
            if isinstance(r, Ref) and r.root[0] == 'C': h = r.root[1]; break
            if isinstance(r, Ref): r = e.rd(st, r.root, r.path)
            else: raise Unsupported("call of an unknown hook %r %r" % (r, c.vals[0]))
            n += 1
            if n > 10: raise Unsupported('hook')
        args = e.ex(c.vals[1]); t = e.ex(args.fs[0]).a
        e.oblige(st, 'no hook is called after an error', core.Not(bval(st.ghost['err'])), 'pre')
        a = s.visacc(st)
        nn = st.ghost['n']
        out = []
        for s2, f in models.fork(e, st, fails(ival(nn))):
            s.putacc(s2, s.called(a, h, t, z3.BoolVal(f)))
            if f: out.append((s2, Enum(c.dty, 1, [errvalue(e, c.dty, nn)])))
            else: out.append((s2, Enum(c.dty, 0, [Agg(e.T[c.dty]['args'][0], [])])))
        return out
    def result(s, e, st, v, r):
        a = s.visacc(st)
        e.oblige(st, 'as many hooks are called as there are tokens with a hook', VIS.n(a) == VIS.n(r))
        e.oblige(st, 'the tokens are visited in document order, each once', VIS.toks(a) == VIS.toks(r))
        e.oblige(st, 'each token gets the first hook of its name, or the default hook', VIS.hooks(a) == VIS.hooks(r))
        e.oblige(st, 'the visit ends at the first error', VIS.err(a) == VIS.err(r))
        v = e.ex(v)
        if not isinstance(v, Enum): raise Unsupported('result of unknown shape')
        e.oblige(st, 'the visit succeeds exactly when no hook failed', eq(bval(st.ghost['err']), v.v == 1))
        if v.v == 1: s.same(e, st, 'the result is the error of the last hook called', v.fs[0], errvalue(e, s.rty, simp(ival(st.ghost['n']) - 1)))
        s.frame(e, st)


class VisitToken(VisitBase):
    path = TV + '_visit'
    def setup(s, e, st, args):
        s.rty = s.fn(e.p).locals[0]
        s.vec = hooks(s, e, st, args[0])
        s.d = e.ex(args[1]); s.W = args[2].a
        s.begin(e, st)
    def dflt_ok(s, e, st, d): return e.eqv(st, d, s.d)
    def spec(s, e, st):
        nm = e._hread(st, 'name', s.T0['name'], s.W)
        i, h, o = hook_of(e, st, s.d.ty, s.vec, nm)
        a = s.acc0
        dset = eq(s.d.tag, 1); dh = e.ex(e.payload(s.d, 1, 0)).a
        call = Or(simp(i >= 0), dset)
        hook = If(simp(i >= 0), h, dh)
        f = fails(VIS.n(a))
        return call, f, z3.simplify(z3.If(call, s.called(a, hook, s.W, f), a))
    def loop_cands(s, e, entry, hd, head, W, M):
        a1 = s.visacc(entry)
        out = [(('noerr',), lambda st: core.Not(bval(st.ghost['err'])))]
        for p, it in iters(W, hd):
            out.append((('fold', p), lambda st, p=p: VISIT.g(s, e, s.W, 0, a1) == VISIT.g(s, e, s.W, W.get(st, p).i, s.visacc(st))))
            out.append((('n', p), lambda st, p=p: ival(W.get(st, p).n) == VISIT.n(s, e, s.W)))
        return out
    def post(s, e, st, v):
        call, f, a1 = s.spec(e, st)
        r = z3.If(And(call, f), a1, VISIT.g(s, e, s.W, 0, a1))
        s.result(e, st, v, r)


class Visit(VisitBase):
    path = TV + 'visit'
    def setup(s, e, st, args):
        s.rty = s.fn(e.p).locals[0]
        s.vec = hooks(s, e, st, args[0]); s.W = args[1].a
        s.begin(e, st)
    def dflt_ok(s, e, st, d):
        i, h, o = hook_of(e, st, d.ty, s.vec, e.S.lit('*'))
        return e.eqv(st, d, o)
    def post(s, e, st, v):
        s.result(e, st, v, VISIT.R(s.W, s.acc0))


ALL = [DiscardErrors, Discard, FatalDiscard, NamedDiscard, VisitorNew, AddVisitor, FindHook, VisitToken, Visit]
