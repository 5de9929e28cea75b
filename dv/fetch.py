"""C11: what fetching a variable yields, and the variable functions of ParserContext."""
from .contract import *
from .simple import skip

FT = 'matchers::fetch::Fetchable'


class FetchFn(FnContract):
    id = 'C11'
    def kind(s, e, v, n):
        v = e.ex(v)
        if not isinstance(v, Enum): raise Unsupported('fetched value of unknown shape')
        return e.T[v.ty]['variants'][v.v]['name'] == n, v.fs[0]
    def setup(s, e, st, args):
        s.self = models.der(e, st, args[0])
        return s.setup2(e, st, args)
    def setup2(s, e, st, args): pass
    def nothing_else(s, e, st):
        e.oblige(st, 'fetching runs nothing and sets nothing', len([x for x in st.ev if x.kind in ('exec', 'set', 'push', 'pop')]) == 0)
        s.frame(e, st)


class FetchVariable(FetchFn):
    """name or name.attribute: the stored text, matcher, or attribute of the stored token"""
    path = '<matchers::fetch::FetchPattern as %s>::fetch_value' % FT
    ATTRS = ['captured_value', 'matched_value', 'start', 'end', 'captured_start', 'captured_end', 'range', 'captured_range']
    def parts(s, e):
        sep = e.S.lit('.')
        return models.splitn(s.name, sep), models.splita(s.name, sep)
    def setup2(s, e, st, args):
        s.name = e.ex(s.self.fs[0]); s.sc = args[2]
    def looked_up(s, e, st):
        n, a = s.parts(e)
        p = e.S.touch(z3.Select(a, 0)) if True else None
        dty = s.optty(e)
        return s.scope_holds(e, st, s.sc.a, p, dty)
    def optty(s, e):
        for i, t in enumerate(e.T):
            if t['k'] == 'adt' and t['path'] == 'core::option::Option' and e.T[t['args'][0]].get('path') == 'scope::VariableType': return i
    def case(s, e, st):
        """(kind of the stored value or None, the stored value)"""
        r = e.ex(s.looked_up(e, st))
        tag = r.v if isinstance(r, Enum) else r.tag
        if e.case(st, eq(tag, 0)): return None, None
        v = e.ex(e.payload(r, 1, 0) if not isinstance(r, Enum) else r.fs[0])
        vs = e.T[v.ty]['variants']
        k = [e.kcase(st, v, len(vs))]
        return vs[k[0]]['name'], e.payload(v, k[0], 0) if not isinstance(v, Enum) else v.fs[0]
    def attr(s, e, st):
        n, a = s.parts(e)
        return e.S.touch(z3.Select(a, 1))
    def on_panic(s, e, st, msg):
        # a variable that cannot be fetched is a programming error of the caller: it is reported by a panic
        k, x = s.case(e, st)
        n, a = s.parts(e)
        known = Or(*[s.attr(e, st) == e.S.lit(t) for t in s.ATTRS])
        if k is None: ok = True
        elif k == 'String': ok = n != 1
        elif k == 'Token': ok = Or(n != 2, Not(known))
        else: ok = False
        e.oblige(st, 'only a variable that does not exist, or has no such attribute, is refused', ok, 'panic')
    def post(s, e, st, v):
        k, x = s.case(e, st)
        n, a = s.parts(e)
        e.oblige(st, 'a variable that was never set yields nothing', k is not None)
        if k == 'Matcher':
            ok, w = s.kind(e, v, 'Matcher')
            e.oblige(st, 'a stored matcher is yielded as a matcher', ok)
            e.oblige(st, 'it is the stored matcher', eq(e.ex(w).a, e.ex(x).a))
        elif k == 'String':
            ok, w = s.kind(e, v, 'String')
            e.oblige(st, 'a stored text is yielded as text', ok)
            e.oblige(st, 'only the bare name yields the stored text', n == 1)
            e.oblige(st, 'it is the stored text', eq(e.ex(w), e.ex(x)))
        else:
            ok, w = s.kind(e, v, 'String')
            e.oblige(st, 'an attribute of a token is yielded as text', ok)
            t = e.ex(x).a
            h = lambda l: e.hread(st, l, t)
            it = lambda l: e.S.touch(models.itoa(ival(h(l))))
            rg = lambda l, m: e.S.cat(e.S.cat(it(l), e.S.lit('..')), it(m))
            want = {'captured_value': models.tok_value(e, st, t), 'matched_value': models.tok_matv(e, st, t), 'start': it('ms'), 'end': it('me'),
                    'captured_start': it('cs'), 'captured_end': it('ce'), 'range': rg('ms', 'me'), 'captured_range': rg('cs', 'ce')}
            e.oblige(st, 'only a name and one attribute yield an attribute', n == 2)
            at = s.attr(e, st); w = e.ex(w)
            for nm, val in want.items():
                e.oblige(st, '.%s is that of the stored token' % nm, Implies(at == e.S.lit(nm), eq(w, val)))
            e.oblige(st, 'no other attribute exists', Or(*[at == e.S.lit(nm) for nm in want]))
        s.nothing_else(e, st)


class FetchStr(FetchFn):
    path = '<&str as %s>::fetch_value' % FT
    def post(s, e, st, v):
        ok, w = s.kind(e, v, 'String')
        e.oblige(st, 'a text is yielded as text', ok)
        e.oblige(st, 'it is that text', eq(e.ex(w), models.sv(e, st, s.args[0])))
        s.nothing_else(e, st)


class FetchString(FetchStr):
    path = '<alloc::string::String as %s>::fetch_value' % FT


class FetchStringRef(FetchStr):
    path = '<&alloc::string::String as %s>::fetch_value' % FT


class FetchMatcher(FetchFn):
    path = '<alloc::rcs::rc::Rc<core::cell::RefCell<alloc::boxed::Box<(dyn matcher::Matcher + \'static)>>> as %s>::fetch_value' % FT
    def post(s, e, st, v):
        ok, w = s.kind(e, v, 'Matcher')
        e.oblige(st, 'a matcher is yielded as a matcher', ok)
        r = s.args[0]; n = 0
        while isinstance(r, Ref) and n < 5: r = e.ex(e.rd(st, r.root, r.path)); n += 1
        e.oblige(st, 'it is that matcher', eq(e.ex(w).a, r.a))
        s.nothing_else(e, st)


class FetchExec(ExecContract):
    """run as a matcher, a Fetch does nothing"""
    id = 'C11'; cls = 'matchers::fetch::FetchPattern'
    def post(s, e, st, v):
        s.same(e, st, 'it consumes nothing', v, skip(s, e))
        e.oblige(st, 'it runs nothing and registers nothing', len([x for x in st.ev if x.kind in ('exec', 'set', 'push', 'pop')]) == 0)
        s.frame(e, st)


class FetchNew(FetchFn):
    path = 'matchers::fetch::FetchPattern::new'
    def setup(s, e, st, args): pass
    def post(s, e, st, v):
        e.oblige(st, 'it fetches the given name', eq(e.ex(e.ex(v).fs[0]), models.sv(e, st, s.args[0])))


ALL = [FetchVariable, FetchStr, FetchString, FetchStringRef, FetchMatcher, FetchExec, FetchNew]
