"""C13: the text of a token agrees with its ranges.  Each method of both implementations of the Token trait is verified
against the contract (models.tok_call) that every other contract assumes for a `dyn Token`; the constructors and
SourceRange are verified too, and so are the trait's own default methods."""
from .contract import *
from .text import *
from .simple import unchanged, IS_ERROR, childleaf, ExpandRange, ErrorM, Store, ProxyChildren

LEAVES = list(TOK)


class TokenMethod(FnContract):
    """method `meth` of type `cls` does to the fields of the struct what the contract does to an abstract token"""
    id = 'C13'; cls = None; meth = None
    def fn(s, prog):
        f = prog.impl.get(('token::Token', s.meth, s.cls))
        if f is None: raise LookupError('no %s for %s' % (s.meth, s.cls))
        return f
    def target(s, prog): return s.fn(prog).path
    def setup(s, e, st, args):
        s.sty = e.T[s.fn(e.p).locals[1]]['t']
        v = e.ex(SymV(s.sty, 'self'))
        st.loc[(-1, 1)] = v
        s.a = e.addr('atok', 0, 0)
        s.pre = st.copy()
        models.tok_init(e, s.pre, s.a, v)
        s.names = [n for n, _ in e.T[s.sty]['variants'][0]['fields']]
        args[0] = Ref(('L', -1, 1))
        return tuple(args)
    def post(s, e, st, v):
        x = st.copy(); x.tok = dict(s.pre.tok)
        fn = s.fn(e.p)
        c = models.C({'path': 'token::Token::' + s.meth, 'name': s.meth}, [TokV(s.a)] + s.args[1:], [], fn.locals[0])
        exp = models.tok_call(e, x, s.a, s.meth, c)
        s.agree(e, st, x, v, exp)
        # the struct after the call, read as a token, is the abstract token after the call
        now = st.loc[(-1, 1)]
        y = st.copy(); b = e.addr('btok', 0, 0); y.tok = dict(s.pre.tok)
        models.tok_init(e, y, b, now)
        for l in LEAVES:
            if l in ('val', 'parent'):
                # meaningful only when set
                k = 'vset' if l == 'val' else 'pset'
                e.oblige(st, 'the field %s is what the contract says' % l, Implies(e.hread(x, k, s.a), eq(e.hread(y, l, b), e.hread(x, l, s.a)))); continue
            e.oblige(st, 'the field %s is what the contract says' % l, eq(e.hread(y, l, b), e.hread(x, l, s.a)))
    def agree(s, e, st, x, v, exp):
        t = e.T[s.fn(e.p).locals[0]]
        if t['k'] == 'ref':
            if isinstance(v, Ref) and isinstance(exp, Ref) and exp.root[0] == 'T':
                f = {'captured': 'captured_range', 'matched': 'matched_range'}.get(exp.path[0][1], exp.path[0][1])
                e.oblige(st, 'the reference is to the field %s' % f, v.root == ('L', -1, 1) and v.path == (('f', s.names.index(f)),))
            st2 = st.copy()
            a = models.der(e, st2, v); st2.tok = x.tok
            b = models.der(e, st2, exp)
            e.oblige(st, 'what is returned is what the contract says', e.eqv(st2, a, b))
            return
        if t['k'] == 'adt' and t['path'] == 'core::option::Option':
            v = e.ex(v); exp = e.ex(exp)
            tg = lambda q: q.v if isinstance(q, Enum) else q.tag
            e.oblige(st, 'something is returned exactly when the contract says', eq(tg(v), tg(exp)))
            pay = lambda q: (q.fs[0] if q.v == 1 else None) if isinstance(q, Enum) else e.payload(q, 1, 0)
            a, b = pay(v), pay(exp)
            if a is not None and b is not None:
                some = eq(tg(v), 1)
                st2 = st.copy()
                if some is not True:
                    try: e.assume(st2, some)
                    except Infeasible: return
                a = models.der(e, st2, e.ex(a)); st3 = st2.copy(); st3.tok = x.tok; b = models.der(e, st3, e.ex(b))
                e.oblige(st2, 'what is returned is what the contract says', e.eqv(st2, a, b))
            return
        e.oblige(st, 'what is returned is what the contract says', e.eqv(st, e.ex(v), e.ex(exp)))


METHODS = ['get_parser', 'get_captured_range', 'get_captured_range_mut', 'set_captured_range', 'get_matched_range', 'get_matched_range_mut',
           'set_matched_range', 'get_name', 'set_name', 'get_parent', 'set_parent', 'get_children', 'get_children_mut', 'set_children', 'add_child',
           'get_value', 'set_value', 'get_captured_value', 'set_captured_value', 'get_matched_value', 'set_matched_value', 'get_attributes',
           'get_attribute', 'attribute_equals', 'set_attribute', 'get_flags', 'set_flags', 'enable_flags', 'disable_flags', 'flags_enabled']
STD = [type('Standard_' + m, (TokenMethod,), dict(cls='token::StandardToken', meth=m)) for m in METHODS]
PIN = [type('Pin_' + m, (TokenMethod,), dict(cls='matchers::pin::PinToken', meth=m)) for m in METHODS + ['should_discard']]



class ToString(FnContract):
    """the text of a range of a source: the bytes start..min(end, length) when that is a valid slice, else nothing"""
    id = 'C13'; path = 'source_range::SourceRange::to_string'
    def post(s, e, st, v):
        r = models.der(e, st, s.args[0]); p = models.der(e, st, s.args[1])
        src = e.S.touch(psource(p.a)); n = e.S.len(src)
        a = ival(e.ex(r.fs[0])); b = ival(e.ex(r.fs[1]))
        m = simp(If(simp(b <= n), b, n))
        good = And(simp(a <= m), bval(e.S.isb(src, a)), bval(e.S.isb(src, m)))
        s.where(e, st, 'the text is the bytes of the range, cut at the end of the source', good, v, e.S.sub(src, a, m))
        s.where(e, st, 'a range that is not a slice of the source has no text', core.Not(good), v, EMPTY)


class RangeNew(FnContract):
    id = 'C13'; path = 'source_range::SourceRange::new'
    def post(s, e, st, v):
        e.oblige(st, 'the start is the given start', eq(e.ex(v.fs[0]), s.args[0])); e.oblige(st, 'the end is the given end', eq(e.ex(v.fs[1]), s.args[1]))


class RangeBlank(FnContract):
    id = 'C13'; path = 'source_range::SourceRange::new_blank'
    def post(s, e, st, v): e.oblige(st, 'a blank range is 0..0', And(eq(e.ex(v.fs[0]), 0), eq(e.ex(v.fs[1]), 0)))


class RangeLen(FnContract):
    id = 'C13'; path = 'source_range::SourceRange::clone_with_len'
    def setup(s, e, st, args):
        r = models.der(e, st, args[0])
        e.assume(st, simp(ival(e.ex(r.fs[0])) + ival(args[1]) <= UMAX))
    def post(s, e, st, v):
        r = models.der(e, st, s.args[0]); a = ival(e.ex(r.fs[0]))
        e.oblige(st, 'the start is kept', eq(e.ex(v.fs[0]), a)); e.oblige(st, 'the end is start plus length', eq(e.ex(v.fs[1]), simp(a + ival(s.args[1]))))


class NewToken(FnContract):
    """a new token has the given name and ranges, their text, and nothing else"""
    id = 'C13'
    def post(s, e, st, v):
        p = models.der(e, st, s.args[0]).a
        cr = e.ex(s.args[2]); mr = e.ex(s.args[3]) if len(s.args) > 3 else cr
        t = e.ex(v).a; T = s.tok(e, st, t)
        cs, ce, ms, me = e.ex(cr.fs[0]), e.ex(cr.fs[1]), e.ex(mr.fs[0]), e.ex(mr.fs[1])
        e.oblige(st, 'the token is a new one', e.frng(t) is not None and e.frng(t)[0] == 'f')
        e.oblige(st, 'it has the given name', eq(T.name, s.args[1]))
        e.oblige(st, 'it has the given ranges', And(eq(T.cs, cs), eq(T.ce, ce), eq(T.ms, ms), eq(T.me, me)))
        e.oblige(st, 'its captured text is the text of its captured range', eq(T.capv, e.S.touch(rtext(p, ival(cs), ival(ce)))))
        e.oblige(st, 'its matched text is the text of its matched range', eq(T.matv, e.S.touch(rtext(p, ival(ms), ival(me)))))
        e.oblige(st, 'it reads the given source', eq(T.parser, p))
        e.oblige(st, 'it has no children, parent, value, attributes or flags', And(eq(T.clen, 0), eq(T.pset, False), eq(T.vset, False), eq(T.ahas, z3.K(Str, z3.BoolVal(False))), eq(T.flags, z3.BitVecVal(0, 8))))
        e.oblige(st, 'it is discarded by parents exactly when it is a pin', eq(T.pin, 'PinToken' in s.path))
        s.frame(e, st)


NEW = [type('New_%s_%s' % (p.split('::')[-2], p.split('::')[-1]), (NewToken,), dict(path=p)) for p in
       ('token::StandardToken::new', 'token::StandardToken::new_with_matched_range', 'matchers::pin::PinToken::new', 'matchers::pin::PinToken::new_with_matched_range')]


class Default(FnContract):
    """a default method of the Token trait, on any token"""
    id = 'C13'
    def setup(s, e, st, args):
        s.a = e.addr('atok', 0, 0)
        args[0] = TokV(s.a)
        return tuple(args)
    def find_child_ok(s, e, st, a): pass


class ShouldDiscard(Default):
    path = 'token::Token::should_discard'
    def post(s, e, st, v): e.oblige(st, 'an ordinary token is never discarded', eq(v, False)); s.frame(e, st)


class HasAttribute(Default):
    path = 'token::Token::has_attribute'
    def post(s, e, st, v):
        k = models.sv(e, st, s.args[1])
        e.oblige(st, 'an attribute is there exactly when it was set', eq(v, simp(z3.Select(e.hread(st, 'ahas', s.a), k)))); s.frame(e, st)


class FindChild(Default):
    """the first child that has the name"""
    path = 'token::Token::find_child'
    def fits(s, e, st, i): return eq(e.hread(st, 'name', e.sel(st, s.arr, i)), s.needle)
    def setup(s, e, st, args):
        r = super().setup(e, st, args)
        s.arr = e.hread(st, 'carr', s.a); s.n = e.hread(st, 'clen', s.a)
        s.needle = s.key(e, st, r[1])
        s.g = z3.Int('g_idx'); e.keep.append(s.g)
        return r
    def key(s, e, st, v): return models.sv(e, st, v)
    def loop_cands(s, e, entry, hd, head, W, M):
        out = []
        for path, it in iters(W, hd):
            out.append(('children looked at so far do not fit', lambda st, p=path: Implies(And(simp(s.g >= 0), simp(s.g < ival(W.get(st, p).i))), core.Not(s.fits(e, st, s.g)))))
        return out
    def post(s, e, st, v):
        v = e.ex(v)
        if not isinstance(v, Enum): raise Unsupported('shape of the result')
        if v.v == 0:
            e.oblige(st, 'nothing is found only when no child fits', Implies(And(simp(s.g >= 0), simp(s.g < ival(s.n))), core.Not(s.fits(e, st, s.g))))
        else:
            t = e.ex(v.fs[0]).a
            e.oblige(st, 'what is found fits', s.fits2(e, st, t))
            i = s.at(e, st, t)
            e.oblige(st, 'what is found is a child', i is not None)
            e.oblige(st, 'no earlier child fits', Implies(And(simp(s.g >= 0), simp(s.g < ival(i))), core.Not(s.fits(e, st, s.g))))
        s.frame(e, st)
    def fits2(s, e, st, t): return eq(e.hread(st, 'name', t), s.needle)
    def at(s, e, st, t):
        """the index at which t was read"""
        t = z3.simplify(t)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and z3.simplify(t.arg(0)).eq(z3.simplify(s.arr)):
            i = t.arg(1)
            if e.entails(st, And(simp(i >= 0), simp(i < ival(s.n)))): return i
        return None


class FindChildFuzzy(FindChild):
    """the first child whose name the regex matches"""
    path = 'token::Token::find_child_fuzzy'
    def key(s, e, st, v): return models.rxterm(e, st, v)
    def fits(s, e, st, i): return models.rxm(s.needle, e.hread(st, 'name', e.sel(st, s.arr, i)))
    def fits2(s, e, st, t): return models.rxm(s.needle, e.hread(st, 'name', t))


class HasChild(Default):
    path = 'token::Token::has_child'
    def post(s, e, st, v):
        k = models.sv(e, st, s.args[1])
        e.oblige(st, 'a child is there exactly when it can be found', eq(v, models.fchas(s.a, k))); s.frame(e, st)


class TextRule:
    """if every token that exists agrees with its ranges before, every token agrees afterwards (pins aside)"""
    id = 'C13'
    def agrees(s, e, r):
        p = r('parser')
        return z3.Or(bool2(r('pin')), z3.And(r('capv') == rtext(p, ival(r('cs')), ival(r('ce'))), r('matv') == rtext(p, ival(r('ms')), ival(r('me')))))
    def post(s, e, st, v):
        g = z3.Int('g_text'); e.keep.append(g)
        st = st.copy()
        e.assume(st, s.agrees(e, lambda l: e._hread(st, l, s.T0[l], g)))
        for ev in s.execs(st): e.assume(st, s.agrees(e, lambda l: childleaf(e, st, l, g, ev)))
        e.oblige(st, 'every token that is not a pin still agrees with its ranges', s.agrees(e, lambda l: e.hread(st, l, g)))


def bool2(x): return x if isz(x) else z3.BoolVal(x)


def tr(name, base): return type('Text_' + name, (TextRule, base), {'id': 'C13'})


TEXT = [tr('ExpandRange', ExpandRange), tr('Error', ErrorM), tr('Equals', Equals), tr('Matches', Matches), tr('Store', Store), tr('ProxyChildren', ProxyChildren)]


ALL = STD + PIN + [ToString, RangeNew, RangeBlank, RangeLen] + NEW + [ShouldDiscard, HasAttribute, FindChild, FindChildFuzzy, HasChild] + TEXT
