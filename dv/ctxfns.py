"""Contracts of the functions of ParserContext."""
from .contract import *
from .tree import Walk_, dt, AI
from . import loops


def vecs(W, st):
    return [((root,), v) for root, v, ty in list(W.roots(st)) if isinstance(v, VecV)]

PC = 'parser_context::ParserContext::'
CE = PC + 'collect_errors'
HP = dt('Forest', ('cl', z3.ArraySort(I, I)), ('ca', z3.ArraySort(I, AI)))
MOVE = Walk_('errors_moved', HP)                        # R(w, heap): the heap after the errors inside w were moved to the root
below = z3.Function('in_tree_of', I, I, B)              # below(w, y): y is w or inside the tree of w
KL = z3.Function('kept_len', AI, I, I); KA = z3.Function('kept', AI, I, AI)
EL = z3.Function('errors_len', AI, I, I); EA = z3.Function('errors_appended', AI, I, AI, I, AI)
ISERR = 0x02


class CollectErrors(FnContract):
    """the error tokens inside a tree are moved to the root: those inside a child before the child's own, left to right"""
    id = 'C15'; path = CE
    def forest(s, e, st): return HP.mk(st.tok['clen'], st.tok['carr'])
    def setforest(s, e, st, f):
        k = e.fresh_uid()
        for l, acc in (('clen', HP.cl), ('carr', HP.ca)):
            x = z3.Const('fo%d_%s' % (k, l), st.tok[l].sort()); e.keep.append(x); e.arrhi[x.get_id()] = 0
            e.assume(st, x == acc(f)); st.tok[l] = x
    def setup(s, e, st, args):
        s.root = args[0].a; s.W = args[1].a; s.is_root = args[2]
        s.y = e.addr('y_any', 0, 0); s.yp = e.addr('y_post', 0, 0)
        e.assume(st, And(Implies(bval(s.is_root), s.W == s.root), Implies(Not(bval(s.is_root)), Not(below(s.W, s.root)))))
        e.assume(st, below(s.W, s.W))
        s.h0 = s.forest(e, st)
        out = []
        for b in (True, False):
            n = st.copy(); e.assume(n, bval(s.is_root) if b else Not(bval(s.is_root))); out.append(n)
        s.notes.append('token trees handed to ParserContext::collect_errors are trees: no token lies inside itself, and the root lies in no subtree')
        return out
    def kidfacts(s, e, x):
        key = ('kid', x.get_id())
        if key in e.opq: return
        e.opq[key] = x
        # x is a child of W in the tree at entry
        e.fact(Not(below(x, s.W))); e.fact(Not(below(x, s.root)))
        e.fact(Implies(below(x, s.y), below(s.W, s.y)))
    def override2(s, e, st, c):
        if c.rp == CE:
            r = e.ex(c.vals[0]).a; x = e.ex(c.vals[1]).a; b = c.vals[2]
            e.oblige(st, 'errors are moved to the same root', eq(r, s.root), 'pre')
            e.oblige(st, 'a nested token is not taken for the root', Not(bval(b)), 'pre')
            s.kidfacts(e, x)
            a = s.forest(e, st)
            f = MOVE.R(x, a); e.keep.append(f)
            for acc in (HP.cl, HP.ca):
                for t in (s.y, s.W):
                    e.fact(Implies(And(Not(below(x, t)), t != s.root), z3.Select(acc(f), t) == z3.Select(acc(a), t)))
            s.setforest(e, st, f)
            return Agg(c.dty, [])
        if c.rp.endswith('Vec::<T, A>::retain'): return s.retain(e, st, c)
    def retain(s, e, st, c):
        """Vec::retain keeps, in order, the elements for which the closure returns true; the closure is verified here
        for an arbitrary element and an arbitrary content of the root's list"""
        r = e.ex(c.vals[0]); v = models.der(e, st, r)
        e.oblige(st, 'the list that is filtered is that of the token itself', eq(v.arrs[0], e.hread(st, 'carr', s.W)), 'pre')
        e.oblige(st, 'the list that is filtered is that of the token itself (length)', eq(v.len, e.hread(st, 'clen', s.W)), 'pre')
        e.oblige(st, 'the filtered list is not the root\'s', s.W != s.root, 'pre')
        n, arr = ival(v.len), v.arrs[0]
        # the closure, for any element
        s1 = st.copy()
        k = e.fresh_uid()
        ln = z3.Int('rl%d' % k); ra = z3.Const('ra%d' % k, AI); i = z3.Int('ri%d' % k); e.keep += [ln, ra, i]
        e.assume(s1, And(ln >= 0, i >= 0, i < n))
        e.hwrite(s1, 'clen', s.root, ln); e.hwrite(s1, 'carr', s.root, ra)
        el = e.ex(e.elem(s1, v, i)); x = el.a
        if e.frng(x) is None: e.setrng(x, 0, 0)
        before = dict(s1.tok)
        def cont(e, st2, val):
            iserr = simp((e._hread(None, 'flags', s.T0['flags'], x) & ISERR) != 0)
            e.oblige(st2, 'a token is removed exactly if it is an error', eq(bval(val), Not(iserr)))
            want_n = z3.If(iserr, ln + 1, ln); want_a = z3.If(iserr, z3.Store(ra, ln, x), ra)
            e.oblige(st2, 'a removed token is appended to the root\'s children, once', And(eq(e.hread(st2, 'clen', s.root), z3.simplify(want_n)), e.hread(st2, 'carr', s.root) == z3.simplify(want_a)))
            y = e.addr('y_closure', 0, 0)
            for l in TOK:
                e.oblige(st2, 'nothing else is touched (%s)' % l, If(y == s.root, True, eq(e.hread(st2, l, y), e._hread(None, l, before[l], y))) if l in ('clen', 'carr')
                         else eq(e.hread(st2, l, y), e._hread(None, l, before[l], y)))
            return []
        f = e.ex(c.vals[1])
        # the closure's argument is a reference to the element
        fv = f
        while isinstance(fv, Ref): fv = e.ex(e.rd(st, fv.root, fv.path))
        fn = e.p.by.get(e.T[fv.ty]['inst'])
        c2 = models.C(c.ft, [f, Agg(None, [Ref(('V', el))])], c.argtys, c.dty)
        _, fn, args = models.inline(e, s1, c2, fn, c2.vals)
        side = e.push(s1, fn, args, None, cont)
        # its effect on the whole list
        r0n, r0a = ival(e.hread(st, 'clen', s.root)), e.hread(st, 'carr', s.root)
        for t in (KL(arr, n), EL(arr, n)): e.fact(t >= 0)
        e.fact(KL(arr, n) + EL(arr, n) == n)
        e.hwrite(st, 'clen', s.W, KL(arr, n)); e.hwrite(st, 'carr', s.W, KA(arr, n))
        e.hwrite(st, 'clen', s.root, r0n + EL(arr, n)); e.hwrite(st, 'carr', s.root, EA(arr, n, r0a, r0n))
        return ('mixed', side, [(st, Agg(c.dty, []))])
    def part(s, e, arr, k, ra, rn):
        """the first k elements of arr split: those kept, and those appended to the list (ra, rn); unfolded once at k"""
        k = ival(k)
        key = ('part', arr.get_id(), k.get_id(), ra.get_id(), rn.get_id())
        if key not in e.opq:
            e.opq[key] = k; e.keep += [arr, k, ra, rn]
            x = z3.simplify(z3.Select(arr, k)); e.keep.append(x)
            if e.frng(x) is None: e.setrng(x, 0, 0)
            err = simp((e._hread(None, 'flags', s.T0['flags'], x) & ISERR) != 0)
            err = bval(err); k1 = z3.simplify(k + 1)
            for z in (z3.IntVal(0), k):
                e.fact(KL(arr, z) + EL(arr, z) == z); e.fact(KL(arr, z) >= 0); e.fact(EL(arr, z) >= 0)
            e.fact(KA(arr, z3.IntVal(0)) == models.nil(I)); e.fact(EA(arr, z3.IntVal(0), ra, rn) == ra)
            e.fact(Implies(k >= 0, And(KL(arr, k1) == KL(arr, k) + z3.If(err, 0, 1), EL(arr, k1) == EL(arr, k) + z3.If(err, 1, 0),
                KA(arr, k1) == z3.If(err, KA(arr, k), z3.Store(KA(arr, k), KL(arr, k), x)),
                EA(arr, k1, ra, rn) == z3.If(err, z3.Store(EA(arr, k, ra, rn), rn + EL(arr, k), x), EA(arr, k, ra, rn)))))
        return KL(arr, k), KA(arr, k), rn + EL(arr, k), EA(arr, k, ra, rn)
    def filtered(s, e, f):
        """the heap after the error children of W were moved to the root"""
        n, arr = z3.Select(HP.cl(f), s.W), z3.Select(HP.ca(f), s.W)
        rn, ra = z3.Select(HP.cl(f), s.root), z3.Select(HP.ca(f), s.root)
        g = HP.mk(z3.Store(z3.Store(HP.cl(f), s.W, KL(arr, n)), s.root, rn + EL(arr, n)),
                  z3.Store(z3.Store(HP.ca(f), s.W, KA(arr, n)), s.root, EA(arr, n, ra, rn)))
        return z3.If(n > 0, g, f)
    def loop_cands(s, e, entry, hd, head, W, M):
        out = []
        h = s.forest(e, entry)
        for p, it in iters(W, hd):
            out.append((('fold', p), lambda st, p=p: MOVE.g(s, e, s.W, 0, h) == MOVE.g(s, e, s.W, W.get(st, p).i, s.forest(e, st))))
            out.append((('n', p), lambda st, p=p: ival(W.get(st, p).n) == MOVE.n(s, e, s.W)))
            out.append((('a', p), lambda st, p=p: W.get(st, p).arrs[0] == e._hread(None, 'carr', s.T0['carr'], s.W)))
        # a loop that splits a list into the tokens kept and the errors moved to the root
        rn, ra = ival(e.hread(entry, 'clen', s.root)), e.hread(entry, 'carr', s.root)
        for p, it in iters(W, hd):
            for src in [models.der(e, hd, it.src).arrs[0]]:
                P = lambda st, p=p, src=src: s.part(e, src, W.get(st, p).i, ra, rn)
                out.append((('el', p, src), lambda st, P=P: e.hread(st, 'clen', s.root) == P(st)[2]))
                out.append((('ea', p, src), lambda st, P=P: e.hread(st, 'carr', s.root) == P(st)[3]))
                out.append((('wl', p, src), lambda st, P=P: e.hread(st, 'clen', s.W) == P(st)[0]))
                out.append((('wa', p, src), lambda st, P=P: e.hread(st, 'carr', s.W) == P(st)[1]))
                for q, v in vecs(W, hd):
                    out.append((('kl', p, q, src), lambda st, P=P, q=q: ival(W.get(st, q).len) == P(st)[0]))
                    out.append((('ka', p, q, src), lambda st, P=P, q=q: W.get(st, q).arrs[0] == P(st)[1]))
        for l in ('clen', 'carr'):
            out.append((('yp', l), lambda st, l=l: Implies(And(s.yp != s.W, s.yp != s.root), z3.Select(st.tok[l], s.yp) == z3.Select(entry.tok[l], s.yp))))
            out.append((('w', l), lambda st, l=l: Implies(Not(bval(s.is_root)), z3.Select(st.tok[l], s.W) == z3.Select(s.T0[l], s.W))))
            out.append((('y', l), lambda st, l=l: Implies(And(Not(below(s.W, s.y)), s.y != s.root), z3.Select(st.tok[l], s.y) == z3.Select(s.T0[l], s.y))))
        return out
    def post(s, e, st, v):
        f = MOVE.g(s, e, s.W, 0, s.h0)
        want = z3.If(bval(s.is_root), f, s.filtered(e, f))
        got = s.forest(e, st)
        y = s.yp; j = z3.Int('j_post'); e.keep.append(j)
        n = z3.Select(HP.cl(want), y)
        e.oblige(st, 'every token keeps or loses exactly the children it should (number)', z3.Select(HP.cl(got), y) == n)
        e.oblige(st, 'every token keeps or loses exactly the children it should',
                 Implies(And(j >= 0, j < n), z3.Select(z3.Select(HP.ca(got), y), j) == z3.Select(z3.Select(HP.ca(want), y), j)))
        for l in ('clen', 'carr'):
            e.oblige(st, 'tokens outside the tree are untouched (%s)' % l, Implies(And(Not(below(s.W, s.y)), s.y != s.root), z3.Select(st.tok[l], s.y) == z3.Select(s.T0[l], s.y)), 'frame')
        g = e.addr('g_frame', 0, 0)
        for l in TOK:
            if l not in ('clen', 'carr'):
                e.oblige(st, 'nothing but the lists of children changes (%s)' % l, eq(e.hread(st, l, g), e._hread(st, l, s.T0[l], g)), 'frame')



COLLECTED = z3.Function('collected', I, HP, HP)         # the heap after the errors of a whole tree were moved to its root


class Tokenize(FnContract):
    """the matcher runs once, in the context's own scope; a token result is returned with its errors collected"""
    id = ('C15', 'C08'); path = PC + 'tokenize'
    payload = True
    def setup(s, e, st, args):
        s.ctx, s.m = args[0], args[1].a
        s.cv = s.wellformed(e, st, s.ctx)
        s.w0, s.w1 = s.window(e, s.cv)
    def override2(s, e, st, c):
        if c.rp == CE:
            r = e.ex(c.vals[0]).a; x = e.ex(c.vals[1]).a
            e.oblige(st, 'errors are collected from the whole tree into its own root', And(eq(r, x), eq(c.vals[2], True)), 'pre')
            st.ev = st.ev + (Ev(kind='collect', m=r, case=(dict(st.tok),)),)
            return Agg(c.dty, [])
    def post(s, e, st, v):
        ex = s.execs(st)
        e.oblige(st, 'the matcher runs exactly once', len(ex) == 1)
        ev = ex[0]
        e.oblige(st, 'it is the given matcher', And(eq(ev.m, s.m), eq(ev.this, s.m)))
        e.oblige(st, 'it runs in the given context', eq(ev.ctx, s.ctx.a))
        e.oblige(st, "it runs in the context's own scope", eq(ev.scope, s.cget(e, s.cv, 'scope').a))
        cs = [x for x in st.ev if x.kind == 'collect']
        k = ev.case[0]
        v = e.ex(v)
        if not isinstance(v, Enum): raise Unsupported('result of unknown shape')
        t = None
        if k in ('Token', 'ProxyChildren'): t = ev.case[1]
        elif k in ('Break', 'Continue') and ev.case[2].v == 0: t = ev.case[2].fs[0]
        if t is not None:
            e.oblige(st, 'a token result is a success (%s)' % k, v.v == 0)
            e.oblige(st, 'it is the token the matcher produced', eq(e.ex(v.fs[0]).a, e.ex(t).a))
            e.oblige(st, 'its errors are collected exactly once', len(cs) == 1)
            e.oblige(st, 'they are collected from the token returned', eq(cs[0].m, e.ex(t).a))
        else:
            e.oblige(st, 'anything else is no success (%s)' % k, v.v == 1)
            e.oblige(st, 'nothing is collected', len(cs) == 0)
            if k == 'Error': s.same(e, st, 'a fatal error is passed on as it is', e.ex(v.fs[0]), e.ex(e.ex(ev.res).fs[0]))
            else:
                w = e.ex(v.fs[0])
                e.oblige(st, 'it is an ordinary failure (%s)' % k, w.v == 0 if isinstance(w, Enum) else eq(w.tag, 0))
        cw = s.window(e, s.cellval(e, st, s.ctx))
        e.oblige(st, "the caller's window is unchanged", And(eq(cw[0], s.w0), eq(cw[1], s.w1)), 'frame')
        s.frame(e, st)



class CtxFn(FnContract):
    """a function of a context: self is the first argument"""
    id = 'C11'
    def setup(s, e, st, args):
        st.loc[(-1, 1)] = s.old = models.der(e, st, args[0])
        args[0] = Ref(('L', -1, 1))
        s.sc = s.cget(e, s.old, 'scope').a
        return tuple(args)
    def now(s, e, st): return e.ex(st.loc[(-1, 1)])
    def same_ctx(s, e, st, but=()):
        v = s.now(e, st)
        for i, (n, t) in enumerate(e.T[s.cty(e)]['variants'][0]['fields']):
            if n in but: continue
            e.oblige(st, 'the context keeps its %s' % n, e.eqv(st, v.fs[i], s.old.fs[i]), 'frame')
    def sets(s, st): return [x for x in st.ev if x.kind in ('set', 'push', 'pop')]
    def the_set(s, e, st, name, ok):
        ss = s.sets(st)
        e.oblige(st, 'exactly one name is set', len(ss) == 1 and ss[0].kind == 'set')
        n, x = ss[0].case
        e.oblige(st, "it is set in the context's own scope", eq(ss[0].scope, s.sc))
        e.oblige(st, 'it is set under the given name', eq(n, name))
        ok(x)
    def matcher_set(s, e, st, m):
        def f(x):
            if not isinstance(x, Enum): raise Unsupported('registered value')
            k = e.T[x.ty]['variants'][x.v]['name']
            e.oblige(st, 'what is set is the matcher', And(k == 'Matcher', eq(e.ex(x.fs[0]).a, m) if k == 'Matcher' else False))
        return f


class GetVariable(CtxFn):
    path = PC + 'get_scope_variable'
    def post(s, e, st, v):
        w = s.scope_holds(e, st, s.sc, models.sv(e, st, s.args[1]), v.ty)
        s.same(e, st, "the value is the one the context's own scope has for the name", v, w)
        e.oblige(st, 'looking a name up sets nothing', len(s.sets(st)) == 0)


class SetVariable(CtxFn):
    path = PC + 'set_scope_variable'
    def post(s, e, st, v):
        s.the_set(e, st, models.sv(e, st, s.args[1]), lambda x: s.same(e, st, 'what is set is the given value', x, s.args[2]))
        s.same_ctx(e, st)


class GetScope(CtxFn):
    path = PC + 'get_scope'
    def post(s, e, st, v): e.oblige(st, "the scope is the context's own", eq(e.ex(v).a, s.sc))


class RegisterWithName(CtxFn):
    path = PC + 'register_matcher_with_name'
    def post(s, e, st, v): s.the_set(e, st, models.sv(e, st, s.args[1]), s.matcher_set(e, st, e.ex(s.args[2]).a))


class RegisterOne(CtxFn):
    path = PC + 'register_matcher'
    def post(s, e, st, v):
        m = e.ex(s.args[1]).a
        s.the_set(e, st, e.S.touch(mname(m)), s.matcher_set(e, st, m))


class GetMatcher(CtxFn):
    path = PC + 'get_registered_matcher'
    def post(s, e, st, v):
        v = e.ex(v)
        if not isinstance(v, Enum): raise Unsupported('result of unknown shape')
        vt = next(i for i, t in enumerate(e.T) if t['k'] == 'adt' and t['path'] == 'core::option::Option' and e.T[t['args'][0]].get('path') == 'scope::VariableType')
        w = e.ex(s.scope_holds(e, st, s.sc, models.sv(e, st, s.args[1]), vt))
        x = e.ex(e.payload(w, 1, 0)); mi = [q['name'] for q in e.T[x.ty]['variants']].index('Matcher')
        has = And(w.tag == 1, x.tag == mi)
        e.oblige(st, 'a matcher is found exactly where the name holds a matcher', eq(has, v.v == 1))
        if v.v == 1: e.oblige(st, 'the matcher found is the one the name holds', eq(e.ex(v.fs[0]).a, e.ex(e.payload(x, mi, 0)).a))
        e.oblige(st, 'looking a name up sets nothing', len(s.sets(st)) == 0)


class RegisterAll(CtxFn):
    """every matcher of the list is set under its own name, in order"""
    path = PC + 'register_matchers'
    def setup(s, e, st, args):
        r = super().setup(e, st, args)
        s.vec = e.ex(args[1])
        st.ghost.update({'n': z3.IntVal(0), 'names': z3.Const('names0', z3.ArraySort(I, core.Str)), 'ms': z3.Const('ms0', AI)})
        s.j = z3.Int('j_any'); e.keep.append(s.j)
        e.assume(st, And(s.j >= 0, s.j < ival(s.vec.len)))
        s.mj = e.ex(e.elem(st, s.vec, s.j)).a
        return r
    def scope_call(s, e, st, c, name):
        v = models.der(e, st, c.vals[0])
        if isinstance(v, ScopeV) and name == 'set':
            x = e.ex(c.vals[2])
            if not isinstance(x, Enum): raise Unsupported('registered value')
            k = e.T[x.ty]['variants'][x.v]['name']
            e.oblige(st, "every name is set in the context's own scope", eq(v.a, s.sc), 'pre')
            e.oblige(st, 'what is set is a matcher', k == 'Matcher', 'pre')
            s.record(e, st, models.sv(e, st, c.vals[1]), e.ex(x.fs[0]).a)
            return SymV(c.dty, 'oldval%d' % e.fresh_uid(), 0, st.epoch)
        return super().scope_call(e, st, c, name)
    def loop_cands(s, e, entry, hd, head, W, M):
        out = []
        for p, it in iters(W, hd):
            out.append((('n', p), lambda st, p=p: ival(st.ghost['n']) == ival(W.get(st, p).i)))
            out.append((('l', p), lambda st, p=p: And(ival(W.get(st, p).n) == ival(s.vec.len), W.get(st, p).arrs[0] == s.vec.arrs[0])))
            out.append((('j', p), lambda st, p=p: Implies(simp(s.j < ival(W.get(st, p).i)), s.jset(e, st))))
        return out
    def record(s, e, st, name, m):
        n = ival(st.ghost['n'])
        st.ghost['names'] = z3.Store(st.ghost['names'], n, name)
        st.ghost['ms'] = z3.Store(st.ghost['ms'], n, m)
        st.ghost['n'] = z3.simplify(n + 1)
    def jset(s, e, st): return And(z3.Select(st.ghost['ms'], s.j) == s.mj, z3.Select(st.ghost['names'], s.j) == mname(s.mj))
    def post(s, e, st, v):
        e.oblige(st, 'exactly as many names are set as there are matchers', eq(st.ghost['n'], s.vec.len))
        e.oblige(st, 'every matcher is set under its own name', s.jset(e, st))


class RegisterMap(RegisterAll):
    """every matcher of the map is set under its key, once, and nothing else is set"""
    path = PC + 'register_matchers_with_names'
    def setup(s, e, st, args):
        r = CtxFn.setup(s, e, st, args)
        s.map = e.ex(args[1]); models.enumfacts(e, s.map.has)
        st.ghost.update({'cnt': z3.K(core.Str, z3.IntVal(0)), 'ms': z3.Const('ms0', z3.ArraySort(core.Str, I))})
        s.k = e.S.touch(z3.Const('k_any', core.Str))
        s.ix = models.enumidx(s.map.has, s.k); e.keep.append(s.ix)
        s.mk = e.ex(models.map_get(e, st, s.map, s.k)).a
        return r
    def record(s, e, st, name, m):
        g = st.ghost
        g['cnt'] = z3.Store(g['cnt'], name, z3.Select(g['cnt'], name) + 1); g['ms'] = z3.Store(g['ms'], name, m)
    def done(s, e, st, i):
        g = st.ghost; ok = And(z3.Select(s.map.has, s.k), s.ix < ival(i))
        return And(z3.Select(g['cnt'], s.k) == z3.If(bval(ok), 1, 0), Implies(ok, z3.Select(g['ms'], s.k) == s.mk))
    def loop_cands(s, e, entry, hd, head, W, M):
        return [(('k', p), lambda st, p=p: s.done(e, st, W.get(st, p).i)) for p, it in iters(W, hd)] + \
               [(('n', p), lambda st, p=p: ival(W.get(st, p).n) == models.enumn(s.map.has)) for p, it in iters(W, hd)] + \
               [(('h', p), lambda st, p=p: And(W.get(st, p).src.has == s.map.has, *[x == y for x, y in zip(W.get(st, p).src.arrs, s.map.arrs)])) for p, it in iters(W, hd) if isinstance(it.src, MapV)]
    def post(s, e, st, v):
        e.oblige(st, 'a name is set once if the map has it, else never', z3.Select(st.ghost['cnt'], s.k) == z3.If(z3.Select(s.map.has, s.k), 1, 0))
        e.oblige(st, 'the matcher set is the one of that name', Implies(z3.Select(s.map.has, s.k), z3.Select(st.ghost['ms'], s.k) == s.mk))


class NewContext(FnContract):
    """a new context looks at the whole source (or the given window), in a new scope, with nothing on its stack"""
    id = ('C10', 'C18'); path = PC + 'new'
    whole = True
    def setup(s, e, st, args):
        p = args[0]; n = 0
        while isinstance(p, Ref) and n < 5: p = e.ex(e.rd(st, p.root, p.path)); n += 1
        s.parser = p.a
    def post(s, e, st, v):
        a = e.ex(v)
        e.oblige(st, 'the context is a new one', e.frng(a.a) is not None and e.frng(a.a)[0] == 'f')
        c = s.cellval(e, st, a)
        w = s.window(e, c)
        src = e.S.touch(psource(s.parser))
        if s.whole: e.oblige(st, 'it looks at the whole source', And(eq(w[0], 0), eq(w[1], slen(src))))
        else: s.same(e, st, 'it looks at the given window', s.cget(e, c, 'offset'), s.args[1])
        e.oblige(st, 'it reads the given source', eq(s.cget(e, c, 'parser').a, s.parser))
        sc = s.cget(e, c, 'scope').a
        e.oblige(st, 'its scope is a new one', e.frng(sc) is not None and e.frng(sc)[0] == 'f')
        e.oblige(st, 'nothing is on its token stack', eq(s.cget(e, c, 'token_stack').len, 0))
        s.same(e, st, 'it has the given name', s.cget(e, c, 'name'), models.sv(e, st, s.args[-1]))


class NewContextAt(NewContext):
    path = PC + 'new_with_offset'; whole = False


class CloneWithName(CtxFn):
    """the clone differs from the context in nothing but its name and identity"""
    id = ('C08', 'C10', 'C18'); path = PC + 'clone_with_name'
    def post(s, e, st, v):
        a = e.ex(v)
        e.oblige(st, 'the clone is a new context', e.frng(a.a) is not None and e.frng(a.a)[0] == 'f')
        c = s.cellval(e, st, a)
        for i, (n, t) in enumerate(e.T[s.cty(e)]['variants'][0]['fields']):
            if n == 'name': s.same(e, st, 'the clone has the given name', c.fs[i], models.sv(e, st, s.args[1]))
            else: e.oblige(st, 'the clone has the same %s' % n, e.eqv(st, c.fs[i], s.old.fs[i]))
        s.same_ctx(e, st)


class SetStart(CtxFn):
    """only the start of the window moves"""
    id = 'C04'; path = PC + 'set_start'
    def want(s, e, o): return e.ex(s.args[1]), o[1]
    def post(s, e, st, v):
        o, w = s.window(e, s.old), s.window(e, s.now(e, st)); x = s.want(e, o)
        e.oblige(st, 'the window moves as told', And(eq(w[0], x[0]), eq(w[1], x[1])))
        s.same_ctx(e, st, ('offset',))


class SetEnd(SetStart):
    id = ('C04', 'C18'); path = PC + 'set_end'
    def want(s, e, o): return o[0], e.ex(s.args[1])


class SetOffset(SetStart):
    id = ('C04', 'C18'); path = PC + 'set_offset'
    def want(s, e, o): r = e.ex(s.args[1]); return e.ex(r.fs[0]), e.ex(r.fs[1])


ALL = [CollectErrors, Tokenize, GetVariable, SetVariable, GetScope, RegisterWithName, RegisterOne, GetMatcher, RegisterAll, RegisterMap,
       NewContext, NewContextAt, CloneWithName, SetStart, SetEnd, SetOffset]
