"""C10: Scope and ScopeContext, the data structures behind the abstract scope stack every other contract assumes."""
from .contract import *
from .tokens import bool2

SHAS = lambda a: z3.Const('', B)


class ScopeFn(FnContract):
    """scopes live in a heap: name -> value, per scope address"""
    id = 'C10'
    abstract_scope = False
    def vt(s, e):
        t = e.p.ty('scope::Scope'); m = e.T[t]['variants'][0]['fields'][0][1]
        return t, m
    def cell(s, e, st, a, ty):
        ity = e.strip(ty)
        if e.T[ity].get('path') == 'scope::Scope':
            t, m = s.vt(e)
            vt = e.T[m]['args'][1]
            AB = z3.ArraySort(I, z3.ArraySort(Str, B))
            H = z3.Const('scopes.has', AB); e.keep.append(H)
            arrs = []
            for i, (p, k, q) in enumerate(e.leafs(vt)):
                A = z3.Const('scopes.val%d' % i, z3.ArraySort(I, z3.ArraySort(Str, e.ksort(k))))
                e.keep.append(A)
                x = z3.Select(A, a); e.keep.append(x); e.arrhi[x.get_id()] = 0
                arrs.append(x)
            return Agg(t, [MapV(m, vt, z3.Select(H, a), arrs)])
        return super().cell(e, st, a, ty)
    def has(s, e, st, a, k):
        v = e.ex(s.cellval(e, st, RcV(a, s.rcty(e)))); return z3.simplify(z3.Select(e.ex(v.fs[0]).has, k))
    def rcty(s, e):
        for i, t in enumerate(e.T):
            if t['k'] == 'adt' and t['s'] == 'core::cell::RefCell<scope::Scope>': return i


    def stack_arg(s, e, st, args):
        c = models.der(e, st, args[0]); s.sty = c.ty
        s.stk = e.ex(c.fs[0]); s.key = models.sv(e, st, args[1])
    def scope_at(s, e, st, i): return e.elem(st, s.stk, i).a
    def val(s, e, st, a, k):
        v = e.ex(s.cellval(e, st, RcV(a, s.rcty(e)))); return models.map_get(e, st, e.ex(v.fs[0]), k)


class CtxGet(ScopeFn):
    """the value in the topmost scope that has the name"""
    path = 'scope_context::ScopeContext::get'
    def setup(s, e, st, args):
        s.stack_arg(e, st, args)
        # top: the index of the topmost scope that has the name, -1 when none has
        s.top = z3.Int('top'); e.keep.append(s.top)
        n = ival(s.stk.len); j = z3.Int('j')
        e.assume(st, And(s.top >= -1, s.top < n))
        e.assume(st, z3.Implies(s.top >= 0, bool2(s.has(e, st, s.scope_at(e, st, s.top), s.key))))
        h = s.has(e, st, s.scope_at(e, st, j), s.key)
        e.assume(st, z3.ForAll([j], z3.Implies(z3.And(j > s.top, j < n), z3.Not(h))))
    def loop_terms(s, e, entry): return [s.top]
    def post(s, e, st, v):
        e.oblige(st, 'something is found exactly when a scope has the name', eq(s.top >= 0, v.v == 1) if isinstance(v, Enum) else eq(v.tag, If(s.top >= 0, z3.IntVal(1), z3.IntVal(0))))
        if isinstance(v, Enum) and v.v == 0: return
        w = s.val(e, st, s.scope_at(e, st, s.top), s.key)
        e.oblige(st, 'what is found is the value in the topmost scope that has the name', e.eqv(st, e.ex(v.fs[0]) if isinstance(v, Enum) else e.payload(v, 1, 0), w))


class CtxSet(ScopeFn):
    """the value is put in the topmost scope; a scope is made when there is none; nothing else changes"""
    path = 'scope_context::ScopeContext::set'
    def setup(s, e, st, args):
        st.loc[(-1, 1)] = models.der(e, st, args[0])
        s.stack_arg(e, st, args)
        args[0] = Ref(('L', -1, 1))
        s.n = s.stk.len; s.g = z3.Int('g_scope'); s.gn = e.str('g_name'); e.keep.append(s.g); s.stk0 = s.stk
        s.st0 = st
        return tuple(args)
    def may_write_cell(s, e, st, a, ty): return True
    def post(s, e, st, v):
        now = e.ex(e.ex(st.loc[(-1, 1)]).fs[0])
        emp = simp(ival(s.n) == 0)
        d = e.case(st, emp)
        e.oblige(st, 'a scope is made only when there is none', eq(now.len, 1 if d else s.n))
        if not d: e.oblige(st, 'the scopes stay where they are', e.eqv(st, now, s.stk0))
        top = e.elem(st, now, simp(ival(now.len) - 1)).a
        if d: e.oblige(st, 'the scope made is a new one', e.frng(top) is not None and e.frng(top)[0] == 'f')
        e.oblige(st, 'the topmost scope has the name', s.has(e, st, top, s.key))
        e.oblige(st, 'under the name is the value', e.eqv(st, s.val(e, st, top, s.key), e.ex(s.args[2])))
        k = s.gn; other = core.Not(eq(k, s.key))
        old = s.has(e, s.st0, top, k) if not d else False
        e.oblige(st, 'other names keep what they had', Implies(other, eq(s.has(e, st, top, k), old)))
        if not d: e.oblige(st, 'other names keep their values', Implies(other, e.eqv(st, s.val(e, st, top, k), s.val(e, s.st0, top, k))))
        for kk, (a, cv, ty) in st.cells.items():
            e.oblige(st, 'no other scope changes', e.entails(st, eq(a, top)))


class ScopeGet(ScopeFn):
    path = 'scope::Scope::get'
    def post(s, e, st, v):
        sc = models.der(e, st, s.args[0]); m = e.ex(sc.fs[0]); k = models.sv(e, st, s.args[1])
        h = simp(z3.Select(m.has, k)); v = e.ex(v)
        e.oblige(st, 'something is found exactly when the scope has the name', eq(v.tag if isinstance(v, SEnum) else v.v, If(h, z3.IntVal(1), z3.IntVal(0))))
        if isinstance(v, SEnum) or v.v == 1:
            x = models.der(e, st, e.payload(v, 1, 0) if isinstance(v, SEnum) else v.fs[0])
            e.oblige(st, 'what is found is the value of the name', Implies(h, e.eqv(st, x, models.map_get(e, st, m, k))))


class ScopeHas(ScopeFn):
    path = 'scope::Scope::contains_key'
    def post(s, e, st, v):
        sc = models.der(e, st, s.args[0]); m = e.ex(sc.fs[0]); k = models.sv(e, st, s.args[1])
        e.oblige(st, 'a scope has exactly the names that were set', eq(v, simp(z3.Select(m.has, k))))


class ScopeSet(ScopeFn):
    path = 'scope::Scope::set'
    def setup(s, e, st, args):
        s.old = models.der(e, st, args[0]); st.loc[(-1, 1)] = s.old; args[0] = Ref(('L', -1, 1)); return tuple(args)
    def post(s, e, st, v):
        m0 = e.ex(s.old.fs[0]); m = e.ex(e.ex(st.loc[(-1, 1)]).fs[0]); k = models.sv(e, st, s.args[1]); g = e.str('g_name')
        e.oblige(st, 'the scope has the name', simp(z3.Select(m.has, k)))
        e.oblige(st, 'under the name is the value', e.eqv(st, models.map_get(e, st, m, k), e.ex(s.args[2])))
        o = core.Not(eq(g, k))
        e.oblige(st, 'other names stay', Implies(o, eq(simp(z3.Select(m.has, g)), simp(z3.Select(m0.has, g)))))
        e.oblige(st, 'other names keep their values', Implies(o, e.eqv(st, models.map_get(e, st, m, g), models.map_get(e, st, m0, g))))


class ScopeNew(ScopeFn):
    path = 'scope::Scope::new'
    def post(s, e, st, v):
        m = e.ex(e.ex(s.cellval(e, st, e.ex(v))).fs[0])
        e.oblige(st, 'a new scope is empty', simp(z3.Select(m.has, e.str('g_name'))) is False or eq(simp(z3.Select(m.has, e.str('g_name'))), False))
        e.oblige(st, 'it is a new one', e.frng(e.ex(v).a)[0] == 'f')


class CtxNew(ScopeFn):
    path = 'scope_context::ScopeContext::new'
    def post(s, e, st, v):
        c = e.ex(s.cellval(e, st, e.ex(v)))
        e.oblige(st, 'a new scope stack is empty', eq(e.ex(c.fs[0]).len, 0))
        e.oblige(st, 'it is a new one', e.frng(e.ex(v).a)[0] == 'f')


class CtxPush(ScopeFn):
    path = 'scope_context::ScopeContext::push'
    def setup(s, e, st, args):
        s.old = models.der(e, st, args[0]); st.loc[(-1, 1)] = s.old; args[0] = Ref(('L', -1, 1)); return tuple(args)
    def post(s, e, st, v):
        a = e.ex(s.old.fs[0]); b = e.ex(e.ex(st.loc[(-1, 1)]).fs[0]); g = z3.Int('g_idx')
        e.oblige(st, 'one scope more', eq(b.len, simp(ival(a.len) + 1)))
        e.oblige(st, 'the new top is the scope given', eq(e.elem(st, b, a.len).a, e.ex(s.args[1]).a))
        e.oblige(st, 'the others stay', Implies(And(g >= 0, simp(g < ival(a.len))), eq(e.elem(st, b, g).a, e.elem(st, a, g).a)))


class CtxPop(CtxPush):
    path = 'scope_context::ScopeContext::pop'
    def post(s, e, st, v):
        a = e.ex(s.old.fs[0]); b = e.ex(e.ex(st.loc[(-1, 1)]).fs[0]); g = z3.Int('g_idx'); v = e.ex(v)
        emp = simp(ival(a.len) == 0)
        e.oblige(st, 'one scope less, unless there is none', eq(b.len, If(emp, 0, simp(ival(a.len) - 1))))
        e.oblige(st, 'the others stay', Implies(And(g >= 0, simp(g < ival(b.len))), eq(e.elem(st, b, g).a, e.elem(st, a, g).a)))
        tg = v.v if isinstance(v, Enum) else v.tag
        e.oblige(st, 'the scope is returned, unless there is none', eq(tg, If(emp, z3.IntVal(0), z3.IntVal(1))))
        x = (v.fs[0] if v.v == 1 else None) if isinstance(v, Enum) else e.payload(v, 1, 0)
        if x is not None: e.oblige(st, 'what is returned is the top', Implies(core.Not(emp), eq(e.ex(x).a, e.elem(st, a, simp(ival(a.len) - 1)).a)))


ALL = [CtxGet, CtxSet, CtxNew, CtxPush, CtxPop, ScopeNew, ScopeGet, ScopeSet, ScopeHas]
