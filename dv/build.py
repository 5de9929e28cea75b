"""C11 / C17 / C18 / C04: what the constructors of the matchers build, and the name, consuming and pattern-list methods of every matcher."""
from .contract import *

M = 'matchers::'


def val(e, st, x):
    x = e.ex(x)
    while isinstance(x, Ref): x = e.ex(e.rd(st, x.root, x.path))
    return x


class Ctor(FnContract):
    """the constructor returns a new matcher of the given kind with the given parts"""
    cls = None; parts = {}; pre = None
    def setup(s, e, st, args):
        s.a = args
    def built(s, e, st, v):
        v = e.ex(v)
        e.oblige(st, 'the matcher is a new one', isinstance(v, RcV) and e.frng(v.a) is not None and e.frng(v.a)[0] == 'f')
        w = e.ex(e.cell(st, ('C', v.a, v.ty)))
        return w
    def post(s, e, st, v):
        w = s.built(e, st, v)
        if isinstance(w, DynV): w = e.ex(w.val)
        s.check(e, st, w)
    def check(s, e, st, w):
        if not isinstance(w, Agg): raise Unsupported('what was built')
        t = e.T[w.ty]
        e.oblige(st, 'the matcher is of the right kind', t['path'] == s.cls)
        if t['path'] != s.cls: return
        names = [n for n, _ in t['variants'][0]['fields']]
        for n, f in s.parts.items():
            if n not in names: raise Unsupported('%s has no field %s' % (s.cls, n))
            x = w.fs[names.index(n)]
            s.part(e, st, n, x, f)
    def part(s, e, st, n, x, f):
        f(s, e, st, 'its %s is the given one' % n, e.ex(x))


def given(i):
    def f(s, e, st, name, x): e.oblige(st, name, e.eqv(st, x, s.a[i]))
    return f


def textarg(i):
    def f(s, e, st, name, x): e.oblige(st, name, eq(models.sv(e, st, x), models.sv(e, st, s.a[i])))
    return f


def lit(t):
    def f(s, e, st, name, x): e.oblige(st, name.replace('the given one', repr(t)), eq(models.sv(e, st, x), e.S.lit(t)))
    return f


def const(c):
    def f(s, e, st, name, x): e.oblige(st, name.replace('the given one', str(c)), eq(x, c))
    return f


def none(s, e, st, name, x): e.oblige(st, name.replace('the given one', 'absent'), eq(x.v if isinstance(x, Enum) else x.tag, 0))


def some(i):
    def f(s, e, st, name, x):
        ok = isinstance(x, Enum) and x.v == 1
        e.oblige(st, name + ' (present)', ok)
        if ok: e.oblige(st, name, e.eqv(st, x.fs[0], s.a[i]))
    return f


def empty(s, e, st, name, x): e.oblige(st, name.replace('the given one', 'empty'), eq(models.seqlen(e, st, x), 0))


def variant(vn, i, text=False):
    def f(s, e, st, name, x):
        if not isinstance(x, Enum): raise Unsupported('shape of ' + name)
        e.oblige(st, name + ' (kind)', e.T[x.ty]['variants'][x.v]['name'] == vn)
        if e.T[x.ty]['variants'][x.v]['name'] != vn: return
        e.oblige(st, name, eq(models.sv(e, st, x.fs[0]), models.sv(e, st, s.a[i])) if text else e.eqv(st, x.fs[0], s.a[i]))
    return f


def action(i):
    """the default name follows the kind: Switch or Program"""
    def f(s, e, st, name, x):
        a = e.ex(s.a[i])
        stop = [j for j, q in enumerate(e.T[a.ty]['variants']) if q['name'] == 'Stop'][0]
        tag = a.v if isinstance(a, Enum) else a.tag
        e.oblige(st, 'it is called Switch when it stops at the first match, else Program',
                 And(Implies(eq(tag, stop), eq(models.sv(e, st, x), e.S.lit('Switch'))), Implies(Not(eq(tag, stop)), eq(models.sv(e, st, x), e.S.lit('Program')))))
    return f


def isaction(vn):
    def f(s, e, st, name, x):
        e.oblige(st, 'it runs all its patterns in order' if vn == 'Continue' else 'it stops at the first match',
                 eq(x.v if isinstance(x, Enum) else x.tag, [j for j, q in enumerate(e.T[x.ty]['variants']) if q['name'] == vn][0]))
    return f


def bounds(i):
    def f(s, e, st, name, x):
        ok = isinstance(x, Enum) and x.v == 1
        e.oblige(st, 'it repeats', ok)
        if ok:
            e.oblige(st, 'its bounds are the ones the given range denotes', len(s.ranges) == 1 and s.ranges[0][0] == i)
            r = e.ex(x.fs[0])
            if s.ranges: e.oblige(st, 'its bounds are those', e.eqv(st, r, s.ranges[0][1]))
    return f


class LoopCtor(Ctor):
    ranges = ()
    def override2(s, e, st, c):
        if c.rp == 'matchers::program::get_range':
            i = [j for j, a in enumerate(s.a) if repr(a) == repr(c.vals[0])]
            r = e.ex(SymV(c.dty, 'get_range'))
            s.ranges = ((i[0] if i else None, r),)
            return r


class StoreCtor(Ctor):
    panics_ok = True          # a variable name with a dot is refused


def K(nm_, path_, cls_, id_, base=Ctor, **parts):
    return type('Build_' + nm_, (base,), dict(path=path_, cls=cls_, id=id_, parts=parts))


CTORS = [
    K('Equals', M + 'equals::EqualsPattern::<T>::new', M + 'equals::EqualsPattern', ['C01', 'C17'], pattern=given(0), name=lit('Equals'), custom_name=const(False)),
    K('EqualsNamed', M + 'equals::EqualsPattern::<T>::new_with_name', M + 'equals::EqualsPattern', ['C01', 'C11'], pattern=given(1), name=textarg(0), custom_name=const(True)),
    K('Matches', M + 'matches::MatchesPattern::new', M + 'matches::MatchesPattern', ['C02', 'C17'], regex=given(0), name=lit('Matches'), custom_name=const(False)),
    K('MatchesNamed', M + 'matches::MatchesPattern::new_with_name', M + 'matches::MatchesPattern', ['C02', 'C11'], regex=given(1), name=textarg(0), custom_name=const(True)),
    K('Sequence', M + 'sequence::SequencePattern::<T>::new', M + 'sequence::SequencePattern', ['C03', 'C17'], start=given(0), end=given(1), escape=given(2), name=lit('Sequence'), custom_name=const(False)),
    K('SequenceNamed', M + 'sequence::SequencePattern::<T>::new_with_name', M + 'sequence::SequencePattern', ['C03', 'C11'], start=given(1), end=given(2), escape=given(3), name=textarg(0), custom_name=const(True)),
    K('Optional', M + 'optional::OptionalPattern::new', M + 'optional::OptionalPattern', ['C07', 'C17'], matcher=given(0)),
    K('Not', M + 'not::NotPattern::new', M + 'not::NotPattern', ['C07', 'C17'], matcher=given(0)),
    K('Discard', M + 'discard::DiscardPattern::new', M + 'discard::DiscardPattern', ['C09', 'C17'], matcher=given(0)),
    K('Flatten', M + 'proxy_children::ProxyChildrenPattern::new', M + 'proxy_children::ProxyChildrenPattern', ['C20', 'C17'], matcher=given(0), custom_name=const(False)),
    K('FlattenNamed', M + 'proxy_children::ProxyChildrenPattern::new_with_name', M + 'proxy_children::ProxyChildrenPattern', ['C20', 'C11'], matcher=given(0), name=textarg(1), custom_name=const(True)),
    K('ExpandRange', M + 'expand_range::ExpandRange::new', M + 'expand_range::ExpandRange', ['C20'], matcher=given(0)),
    K('Map', M + 'map::MapPattern::<SF, FF>::new', M + 'map::MapPattern', ['C19', 'C17'], matcher=given(0), success_func=given(1), failure_func=some(2)),
    K('Catch', M + 'catch::CatchPattern::<F>::new', M + 'catch::CatchPattern', ['C19'], matcher=given(0), catch_func=given(1)),
    K('Error', M + 'error::ErrorPattern::new', M + 'error::ErrorPattern', ['C19'], message=textarg(0)),
    K('Panic', M + 'panic::PanicPattern::new', M + 'panic::PanicPattern', ['C19'], message=textarg(0)),
    K('Ref', M + 'r#ref::RefPattern::<T>::new', M + 'r#ref::RefPattern', ['C11', 'C17'], target=given(0), name=lit('Ref'), custom_name=const(False)),
    K('RefNamed', M + 'r#ref::RefPattern::<T>::new_with_name', M + 'r#ref::RefPattern', ['C11'], target=given(0), name=textarg(1), custom_name=const(True)),
    K('StoreText', M + 'store::StorePattern::new_as_string_type', M + 'store::StorePattern', ['C11'], base=StoreCtor, name=textarg(0), pattern=variant('String', 1, True)),
    K('StorePattern', M + 'store::StorePattern::new_as_matcher_type', M + 'store::StorePattern', ['C11'], base=StoreCtor, name=textarg(0), pattern=variant('Matcher', 1)),
    K('Register', M + 'register::RegisterPattern::new_blank', M + 'register::RegisterPattern', ['C11'], patterns=empty),
    K('Pin', M + 'pin::PinPattern::<T>::new', M + 'pin::PinPattern', ['C18'], pattern=given(0), offset=given(1), name=lit('Pin'), custom_name=const(False)),
    K('PinNamed', M + 'pin::PinPattern::<T>::new_with_name', M + 'pin::PinPattern', ['C18', 'C11'], pattern=given(0), name=textarg(1), offset=given(2), custom_name=const(True)),
    K('SetScope', M + 'set_scope::SetScopePattern::new', M + 'set_scope::SetScopePattern', ['C10'], matcher=given(0), scope=none),
    K('SetScopeGiven', M + 'set_scope::SetScopePattern::new_with_scope', M + 'set_scope::SetScopePattern', ['C10', 'C17'], matcher=given(1), scope=some(0)),
    K('Break', M + 'r#break::BreakPattern::new', M + 'r#break::BreakPattern', ['C06'], loop_name=textarg(0)),
    K('BlankProgram', M + 'program::ProgramPattern::new_blank_program', M + 'program::ProgramPattern', ['C04', 'C05', 'C17'], patterns=empty, iterate_range=none, on_first_match=given(0), custom_name=const(False), name=action(0)),
    K('Program', M + 'program::ProgramPattern::new_program', M + 'program::ProgramPattern', ['C04', 'C05', 'C17'], patterns=given(0), iterate_range=none, on_first_match=given(1), custom_name=const(False), name=action(1)),
    K('ProgramNamed', M + 'program::ProgramPattern::new_program_with_name', M + 'program::ProgramPattern', ['C04', 'C05', 'C11', 'C17'], patterns=given(0), name=textarg(1), iterate_range=none, on_first_match=given(2), custom_name=const(True)),
    K('BlankLoop', M + 'program::ProgramPattern::new_blank_loop', M + 'program::ProgramPattern', ['C06', 'C17'], base=LoopCtor, patterns=empty, iterate_range=bounds(0), on_first_match=isaction('Continue'), name=lit('Loop'), custom_name=const(False)),
    K('Loop', M + 'program::ProgramPattern::new_loop', M + 'program::ProgramPattern', ['C06'], base=LoopCtor, patterns=given(0), iterate_range=bounds(1), on_first_match=isaction('Continue'), name=lit('Loop'), custom_name=const(False)),
    K('LoopNamed', M + 'program::ProgramPattern::new_loop_with_name_and_range', M + 'program::ProgramPattern', ['C06', 'C11'], base=LoopCtor, patterns=given(0), name=textarg(1), iterate_range=bounds(2), on_first_match=isaction('Continue'), custom_name=const(True)),
    K('Null', M + 'null::NullPattern::new', M + 'null::NullPattern', ['C17']),
]


class GetRange(FnContract):
    """the bounds of a loop: the given start (the next number when it is excluded) and the given end, included or not; else zero and no limit"""
    id = 'C06'; path = 'matchers::program::get_range'
    def override2(s, e, st, c):
        if c.ft.get('trait') == 'core::ops::range::RangeBounds':
            if not hasattr(s, 'b'): s.b = {}
            if c.name not in s.b: s.b[c.name] = e.ex(SymV(c.dty, c.name))
            return s.b[c.name]
    def bound(s, e, b): return [q['name'] for q in e.T[b.ty]['variants']]
    def post(s, e, st, v):
        v = e.ex(v); lo, hi = e.ex(v.fs[0]), e.ex(v.fs[1])
        for n, x, dflt, ok in (('start_bound', lo, 0, 'Included'), ('end_bound', hi, UMAX, 'Excluded')):
            b = s.b.get(n)
            e.oblige(st, 'the %s of the range is asked for' % n, b is not None)
            if b is None: continue
            vs = s.bound(e, b); k = vs.index(ok); u = vs.index('Unbounded')
            e.oblige(st, '%s: the bound that is given' % n, Implies(b.tag == k, eq(x, val(e, st, e.payload(b, k, 0)))))
            k = vs.index('Excluded' if ok == 'Included' else 'Included'); y = val(e, st, e.payload(b, k, 0))
            if ok == 'Included': e.oblige(st, '%s: the number after an excluded start' % n, Implies(And(b.tag == k, y < UMAX), eq(x, y + 1)))
            else: e.oblige(st, '%s: an included end is given too' % n, Implies(b.tag == k, eq(x, y)))
            e.oblige(st, '%s: no limit when none is given' % n, Implies(b.tag == u, eq(x, dflt)))


RANGES = [GetRange]


# ---------------------------------------------------------------- name and consuming methods
class Meth(FnContract):
    id = 'C11'; cls = None; meth = None
    def fn(s, prog):
        f = prog.impl.get(('matcher::Matcher', s.meth, s.cls))
        if f is not None: return f
        r = [f for f in prog.fns if f.path == 'matcher::Matcher::' + s.meth and '::promoted[' not in f.key]
        if not r: raise LookupError('%s of %s' % (s.meth, s.cls))
        s.default = True
        return r[0]
    default = False
    def setup(s, e, st, args):
        if s.default: return None
        t = e.T[s.fn(e.p).locals[1]]['t']
        s.v0 = e.ex(SymV(t, 'self')); s.ty = t
        st.loc[(-1, 1)] = s.v0
        args[0] = Ref(('L', -1, 1))
        s.a = args
        return tuple(args)
    def field(s, e, v, n):
        for i, (f, t) in enumerate(e.T[s.ty]['variants'][0]['fields']):
            if f == n: return e.ex(v.fs[i])
        raise Unsupported('%s has no field %s' % (s.cls, n))
    def now(s, e, st): return e.ex(st.loc[(-1, 1)])
    def kept(s, e, st, but=()):
        n = s.now(e, st)
        if n is s.v0: return
        for i, (f, t) in enumerate(e.T[s.ty]['variants'][0]['fields']):
            if f in but or n.fs[i] is s.v0.fs[i]: continue
            e.oblige(st, 'its %s is unchanged' % f, e.eqv(st, n.fs[i], s.v0.fs[i]))
    def on_matcher(s, e, st, c, m):
        if c.name == 'set_name':
            st.ev = st.ev + (Ev(kind='setname', m=m.a, case=(models.sv(e, st, c.vals[1]),)),)
            return Agg(c.dty, [])


class GetName(Meth):
    meth = 'get_name'; want = None
    def post(s, e, st, v):
        w = s.field(e, s.v0, 'name') if s.want is None else e.S.lit(s.want)
        e.oblige(st, 'its name is the one it was given' if s.want is None else 'its name is %r' % s.want, eq(models.sv(e, st, v), models.sv(e, st, w)))
        s.kept(e, st)


class SetName(Meth):
    """how: ('own', default) the name is taken; custom unless it equals the default name; ('child', field); ('none',)"""
    meth = 'set_name'; how = None
    def post(s, e, st, v):
        n = s.now(e, st); name = models.sv(e, st, s.a[1])
        ev = [x for x in st.ev if x.kind == 'setname']
        if s.how[0] == 'own':
            e.oblige(st, 'the name becomes the given one', eq(models.sv(e, st, s.field(e, n, 'name')), name))
            e.oblige(st, 'no other matcher is renamed', not ev)
            if len(s.how) > 1:
                c = s.field(e, n, 'custom_name')
                e.oblige(st, 'the name counts as given', Implies(core.Not(eq(name, e.S.lit(s.how[1]))), c))
            s.kept(e, st, ('name', 'custom_name'))
        elif s.how[0] == 'child':
            m = s.field(e, s.v0, s.how[1])
            if not isinstance(m, RcV):
                has = e.case(st, eq(m.tag, 1))
                if not has: e.oblige(st, 'nothing is renamed', not ev); s.kept(e, st); return
                m = e.ex(e.payload(m, 1, 0))
            e.oblige(st, 'the pattern inside takes the name, once', len(ev) == 1)
            if ev: e.oblige(st, 'the name is passed on to the pattern inside', And(eq(ev[0].m, m.a), eq(ev[0].case[0], name)))
            s.kept(e, st)
        else:
            e.oblige(st, 'nothing is renamed', not ev); s.kept(e, st)


class HasCustom(Meth):
    meth = 'has_custom_name'; want = None
    def post(s, e, st, v):
        if s.want is None: e.oblige(st, 'it has a custom name exactly when it was given one', eq(e.ex(v), s.field(e, s.v0, 'custom_name')))
        else: e.oblige(st, 'it has no custom name', eq(e.ex(v), s.want))


class Consuming(Meth):
    id = 'C04'; meth = 'is_consuming'; want = True
    def post(s, e, st, v): e.oblige(st, 'it reports itself as %sconsuming' % ('' if s.want else 'non-'), eq(e.ex(v), s.want))


class StoreConsuming(Meth):
    id = ['C04', 'C11']; meth = 'is_consuming'; cls = M + 'store::StorePattern'
    def post(s, e, st, v):
        p = s.field(e, s.v0, 'pattern')
        i = [j for j, q in enumerate(e.T[p.ty]['variants']) if q['name'] == 'Matcher'][0]
        e.oblige(st, 'storing consumes exactly when it runs a pattern', eq(v, eq(p.v if isinstance(p, Enum) else p.tag, i)))


class AddPattern(Meth):
    """the pattern is appended, the others stay"""
    id = ['C04', 'C17']; meth = 'add_pattern'
    def post(s, e, st, v):
        o = s.field(e, s.v0, 'patterns'); n = s.field(e, s.now(e, st), 'patterns')
        ln = ival(models.seqlen(e, st, o))
        e.oblige(st, 'there is one more pattern', eq(models.seqlen(e, st, n), simp(ln + 1)))
        e.oblige(st, 'the last pattern is the given one', e.eqv(st, e.elem(st, n, ln), s.a[1]))
        g = z3.Int('g_pat'); e.keep.append(g)
        e.oblige(st, 'the earlier patterns stay', Implies(And(g >= 0, g < ln), e.eqv(st, e.elem(st, n, g), e.elem(st, o, g))))
        s.kept(e, st, ('patterns',))


SPEC = [  # class, name, set_name, custom, consuming
    ('r#break::BreakPattern', 'Break', ('none',), False, True),
    ('catch::CatchPattern', 'Catch', ('child', 'matcher'), False, True),
    ('debug::DebugPattern', 'Debug', ('child', 'matcher'), False, True),
    ('discard::DiscardPattern', 'Discard', ('child', 'matcher'), False, True),
    ('equals::EqualsPattern', None, ('own', 'Equals'), None, True),
    ('error::ErrorPattern', 'Error', ('none',), False, True),
    ('expand_range::ExpandRange', None, ('child', 'matcher'), False, True),
    ('fetch::FetchPattern', None, ('own',), False, False),
    ('map::MapPattern', 'Map', ('child', 'matcher'), False, True),
    ('matches::MatchesPattern', None, ('own', 'Matches'), None, True),
    ('not::NotPattern', 'Not', ('child', 'matcher'), False, True),
    ('null::NullPattern', 'Null', ('none',), False, False),
    ('optional::OptionalPattern', 'Optional', ('child', 'matcher'), False, True),
    ('panic::PanicPattern', None, ('none',), False, True),
    ('pin::PinPattern', None, ('own', 'Pin'), None, False),
    ('program::ProgramPattern', None, ('own', ''), None, True),
    ('proxy_children::ProxyChildrenPattern', None, ('own', ''), None, True),
    ('r#ref::RefPattern', None, ('own', ''), None, True),
    ('register::RegisterPattern', 'Register', ('none',), False, False),
    ('sequence::SequencePattern', None, ('own', 'Sequence'), None, True),
    ('set_scope::SetScopePattern', 'SetScope', ('child', 'matcher'), False, True),
    ('store::StorePattern', None, ('own', ''), None, None),
]
METHS = []
for cls, nm, how, cus, con in SPEC:
    sh = cls.split('::')[-1].replace('Pattern', '')
    d = dict(cls=M + cls)
    if not (nm is None and how[0] != 'own'): METHS.append(type('Name_' + sh, (GetName,), dict(d, want=nm)))
    METHS.append(type('Rename_' + sh, (SetName,), dict(d, how=how)))
    METHS.append(type('Custom_' + sh, (HasCustom,), dict(d, want=cus)))
    if con is not None: METHS.append(type('Consumes_' + sh, (Consuming,), dict(d, want=con)))
METHS.append(StoreConsuming)
METHS += [type('Add_' + n, (AddPattern,), dict(cls=M + c)) for n, c in (('Program', 'program::ProgramPattern'), ('Register', 'register::RegisterPattern'))]

ALL = CTORS + RANGES + METHS
