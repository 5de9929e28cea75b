"""C16, C17: from the token tree of a script to matchers.  Constructors, Matcher::set_name and Matcher::add_pattern are
used by contract (dv/build.py); what a definition builds is read off the sequence of those calls."""
from .contract import *

P = 'script::v1::parser::'


class ScriptFn(FnContract):
    def find_child_ok(s, e, st, a): pass
    def tok_of(s, e, i): return e.ex(s.args[i]).a
    def name_of(s, e, st, a): return e.hread(st, 'name', a)
    def isname(s, e, st, a, t): return eq(s.name_of(e, st, a), e.S.lit(t))
    def is_(s, e, st, f):
        return e.case(st, f)
    def child(s, e, st, a, i): return simp(e.sel(st, e.hread(st, 'carr', a), i))
    def nkids(s, e, st, a): return e.hread(st, 'clen', a)
    def err(s, e, st, name, v):
        v = e.ex(v)
        if isinstance(v, Enum): e.oblige(st, name, v.v == 1)
        else: e.oblige(st, name, eq(v.tag, 1))
    def okv(s, e, st, name, v):
        v = e.ex(v)
        if not isinstance(v, Enum): raise Unsupported('result of unknown shape')
        e.oblige(st, name, v.v == 0)
        return e.ex(v.fs[0]) if v.v == 0 else None

    # what is built, by contract of the constructors
    def ctor(s, e, st, c):
        m = re.fullmatch(r'matchers::[\w#]+::(\w+?)(?:::<[^>]*>)?::(new\w*)', c.rp)
        if not m or not s.mref(e, c.dty): return None
        a = e.alloc(st)
        st.ev = st.ev + (Ev(kind='new', m=a, case=(m.group(1), m.group(2), [s.arg0(e, st, x) for x in c.vals]), x=[e.T[t]['s'] for t in c.argtys]),)
        return RcV(a, e.T[c.dty]['args'][0])
    def mref(s, e, ty):
        t = e.T[ty] if ty is not None else {}
        return t.get('path') == 'alloc::rcs::rc::Rc' and e.ismatcher(t['args'][0])
    def arg0(s, e, st, x):
        x = e.ex(x)
        while isinstance(x, Ref): x = e.ex(e.rd(st, x.root, x.path))
        return x
    def override2(s, e, st, c):
        r = s.callee(e, st, c)
        return r if r is not None else s.ctor(e, st, c)
    def callee(s, e, st, c): return None
    def on_matcher(s, e, st, c, m):
        if c.name == 'set_name':
            st.ev = st.ev + (Ev(kind='name', m=m.a, case=(models.sv(e, st, c.vals[1]),)),)
            return Agg(c.dty, [])
        if c.name == 'add_pattern':
            st.ev = st.ev + (Ev(kind='add', m=m.a, case=(e.ex(c.vals[1]).a,)),)
            s.added(e, st, m.a, e.ex(c.vals[1]).a)
            return Agg(c.dty, [])
    def added(s, e, st, m, p): pass
    def new(s, st, *kinds): return [x for x in st.ev if x.kind == 'new' and (not kinds or x.case[0] in kinds)]


class Repeat(ScriptFn):
    id = 'C16'; path = 'script::v1::matchers::repeat_specifier::get_repeat_specifier_range'
    def setup(s, e, st, args):
        t = e.ex(args[0]).a
        # precondition: a RepeatRange token has a Minimum child (the grammar makes none without)
        e.assume(st, Implies(s.isname(e, st, t, 'RepeatRange'), models.fchas(t, e.S.lit('Minimum'))))
    def number(s, e, st, t, nm):
        c = models.fcget(t, e.S.lit(nm))
        x = models.tok_capv(e, st, c)
        return models.parseok(x), models.parsev(x)
    def post(s, e, st, v):
        t = s.tok_of(e, 0); v = e.ex(v)
        if not isinstance(v, Enum): raise Unsupported('result of unknown shape')
        ok = v.v == 0
        lo = hi = None
        if ok: r = e.ex(v.fs[0]); lo, hi = (ival(e.ex(r.fs[0])), ival(e.ex(r.fs[1]))) if isinstance(r, Agg) else (ival(r.i), ival(r.n))
        def want(name, cond, f): 
            if cond is not False: e.oblige(st, name, Implies(cond, f))
        def rng(a, b): return And(eq(lo, a), eq(hi, b)) if ok else False
        z, o, r = (s.isname(e, st, t, 'Repeat' + x) for x in ('ZeroOrMore', 'OneOrMore', 'Range'))
        want('* is zero or more', z, rng(0, UMAX))
        want('+ is one or more', o, rng(1, UMAX))
        nok, n = s.number(e, st, t, 'Minimum'); mok, m = s.number(e, st, t, 'Maximum')
        sep = models.fchas(t, e.S.lit('Seperator')); mx = models.fchas(t, e.S.lit('Maximum'))
        want('a malformed first number is an error', And(r, Not(nok)), not ok)
        want('a malformed second number is an error', And(r, sep, mx, Not(mok)), not ok)
        want('reversed numbers are an error', And(r, sep, mx, nok, mok, m < n), not ok)
        want('{min, max} is min to max', And(r, sep, mx, nok, mok, m >= n), rng(n, m))
        want('{min,} is min or more', And(r, sep, Not(mx), nok), rng(n, UMAX))
        want('two numbers without a separator are an error', And(r, Not(sep), mx), not ok)
        want('{max} is at most max', And(r, Not(sep), Not(mx), nok), rng(0, n))
        want('anything else is an error', And(Not(z), Not(o), Not(r)), not ok)
        s.frame(e, st)


import re
bok = z3.Function('pattern_ok', I, B)            # whether the definition at a token builds
bm = z3.Function('pattern_built', I, I)          # the matcher it builds
bi = z3.Function('pattern_inner', I, I)          # its inner matcher
berr = z3.Function('pattern_error', I, Str)
iok = z3.Function('inner_ok', I, B)
im = z3.Function('inner_built', I, I)
ierr = z3.Function('inner_error', I, Str)


def built(e, st, c, t, ok, vals, er):
    """result of a construct_matcher_* call by contract, one state per outcome"""
    out = []
    rt = e.T[c.dty]
    for k in (True, False):
        s2 = st.copy()
        try: e.assume(s2, ok if k else Not(ok))
        except Infeasible: continue
        s2.ev = s2.ev + (Ev(kind='build', m=t, case=(k,)),)
        if not k: out.append((s2, Enum(c.dty, 1, [e.S.touch(er)]))); continue
        pt = rt['args'][0]
        if len(vals) == 1: x = RcV(vals[0], e.T[pt]['args'][0])
        else: x = Agg(pt, [RcV(v, e.T[q]['args'][0]) for v, q in zip(vals, e.T[pt]['ts'])])
        out.append((s2, Enum(c.dty, 0, [x])))
    return out


class Inner(ScriptFn):
    """the matcher a pattern token describes"""
    id = 'C17'; path = P + 'construct_matcher_from_inner_definition'
    KINDS = ['EqualsMatcher', 'RegexMatcher', 'SequenceMatcher', 'CustomMatcher', 'SwitchMatcher', 'ProgramMatcher']
    def setup(s, e, st, args):
        t = e.ex(args[1]).a; s.t = t
        n = ival(s.nkids(e, st, t))
        # shapes the grammar gives these tokens
        for k, m in (('EqualsMatcher', 1), ('CustomMatcher', 1), ('SequenceMatcher', 3)): e.assume(st, Implies(s.isname(e, st, t, k), n >= m))
        s.notes.append('shapes of script tokens assumed from the grammar: EqualsMatcher and CustomMatcher have a child, SequenceMatcher three, PatternDefinitionCaptured one (two with a name), Attribute two, RepeatRange a Minimum')
        st.ghost['pm'] = None; st.ghost['pn'] = 0
        st.ghost['parr'] = z3.K(I, z3.IntVal(0)); e.keep.append(st.ghost['parr'])
        s.g = z3.Int('g_pat'); e.keep.append(s.g)
        out = []
        for k in s.KINDS + [None]:
            n2 = st.copy(); n2.ghost['k'] = k
            try: e.assume(n2, s.isname(e, n2, t, k) if k else And(*[Not(s.isname(e, n2, t, q)) for q in s.KINDS]))
            except Infeasible: continue
            out.append(n2)
        return out
    def callee(s, e, st, c):
        if c.rp == P + 'construct_matcher_from_pattern':
            t = e.ex(c.vals[1]).a
            return built(e, st, c, t, bok(t), [bm(t), bi(t)], berr(t))
    def added(s, e, st, m, p):
        n = s.new(st)
        e.oblige(st, 'patterns are added to the matcher being built', len(n) >= 1 and eq(n[-1].m, m))
        st.ghost['parr'] = z3.Store(st.ghost['parr'], ival(st.ghost['pn']), p)
        st.ghost['pn'] = simp(ival(st.ghost['pn']) + 1)
    def good(s, e, st): return And(bok(s.child(e, st, s.t, s.g)), z3.Select(st.ghost['parr'], s.g) == bm(s.child(e, st, s.t, s.g)))
    def loop_cands(s, e, entry, hd, head, W, M):
        out = [(('patterns so far',), lambda st: Implies(And(s.g >= 0, s.g < ival(st.ghost['pn'])), s.good(e, st)))]
        for p, it in iters(W, hd): out.append((('as many as children seen', p), lambda st, p=p: eq(st.ghost['pn'], W.get(st, p).i)))
        return out
    def result(s, e, st, v, kind, f='new'):
        m = s.okv(e, st, 'the definition builds a matcher', v)
        if m is None: return None
        n = s.new(st)
        e.oblige(st, 'exactly one matcher is made', len(n) == 1)
        if len(n) != 1: return None
        e.oblige(st, 'it is a %s' % kind, n[0].case[0] == kind and n[0].case[1].startswith('new'))
        e.oblige(st, 'it is the result', eq(m.a, n[0].m))
        return n[0].case[2] if n[0].case[0] == kind else None
    def text(s, e, st, name, x, w): e.oblige(st, name, eq(models.sv(e, st, x), w))
    def post(s, e, st, v):
        k = st.ghost['k']; t = s.t
        val = lambda a: models.tok_value(e, st, a)
        kid = lambda i: s.child(e, st, t, i)
        if k is None: s.err(e, st, 'an unknown kind of pattern is an error', v)
        elif k == 'EqualsMatcher':
            w = val(kid(0))
            if s.is_(e, st, eq(w, EMPTY)): s.err(e, st, 'an empty literal is an error', v)
            else:
                a = s.result(e, st, v, 'EqualsPattern')
                if a: s.text(e, st, 'it matches the literal given', a[0], w)
        elif k == 'CustomMatcher':
            w = val(kid(0))
            if s.is_(e, st, eq(w, EMPTY)): s.err(e, st, 'an empty reference is an error', v)
            else:
                a = s.result(e, st, v, 'RefPattern')
                if a: s.text(e, st, 'it refers to the name given', a[0], w)
        elif k == 'RegexMatcher':
            w = val(t); F = e.S.lit('Flags')
            if s.is_(e, st, eq(w, EMPTY)): s.err(e, st, 'an empty regular expression is an error', v)
            else:
                if s.is_(e, st, models.fchas(t, F)):
                    w = e.S.cat(e.S.cat(e.S.cat(e.S.lit('(?'), models.tok_capv(e, st, models.fcget(t, F))), e.S.lit(')')), w)
                if not s.is_(e, st, models.rxok(w)): s.err(e, st, 'a regular expression that does not compile is an error', v)
                else:
                    a = s.result(e, st, v, 'MatchesPattern')
                    if a: e.oblige(st, 'it matches the regular expression given, with its flags', eq(models.rxterm(e, st, a[0]), models.rxmk(w)))
        elif k == 'SequenceMatcher':
            w = [val(kid(i)) for i in range(3)]
            if s.is_(e, st, eq(w[0], EMPTY)) or s.is_(e, st, eq(w[1], EMPTY)): s.err(e, st, 'an empty delimiter is an error', v)
            else:
                a = s.result(e, st, v, 'SequencePattern')
                if a:
                    for x, y, n in zip(a, w, ('start', 'end', 'escape')): s.text(e, st, 'its %s text is the one given' % n, x, y)
        else:
            n = ival(s.nkids(e, st, t))
            if s.is_(e, st, n == 0): s.result(e, st, v, 'NullPattern'); return
            r = e.ex(v)
            if not isinstance(r, Enum): raise Unsupported('result of unknown shape')
            if r.v == 1:
                b = [x for x in st.ev if x.kind == 'build']
                e.oblige(st, 'it fails only when one of its patterns does', len(b) >= 1 and b[-1].case[0] is False)
                if b:
                    e.oblige(st, 'the failing definition is one of its patterns', s.among(e, st, b[-1].m))
                    s.text(e, st, 'the error is that pattern\'s error', r.fs[0], berr(b[-1].m))
            else:
                a = s.result(e, st, v, 'ProgramPattern')
                if a:
                    ac = e.ex(a[0])
                    vn = e.T[ac.ty]['variants'][ac.v]['name'] if isinstance(ac, Enum) else None
                    e.oblige(st, 'it is a switch or a program as described', vn == ('Stop' if k == 'SwitchMatcher' else 'Continue'))
                e.oblige(st, 'it has as many patterns as described', eq(st.ghost['pn'], n))
                e.oblige(st, 'its patterns are the described ones, in order', Implies(And(s.g >= 0, s.g < n), s.good(e, st)))
        s.frame(e, st)
    def among(s, e, st, a):
        i = z3.Int('i_among')
        return z3.Exists([i], z3.And(i >= 0, i < ival(s.nkids(e, st, s.t)), z3.Select(e.hread(st, 'carr', s.t), i) == a))


def regex_child(s, e, st, t, static, names):
    """the first child whose name the static regex matches: (found, its token)"""
    src = None
    for f in e.p.fns:
        if '__static_ref_initialize' in f.path and f.path.startswith('<' + P + static + ' as '):
            src = models.static_regex(e, f.path.split(' as ')[0] + ' as core::ops::deref::Deref>')
    if src is None: raise Unsupported('the regex %s is not where it was' % static)
    k = models.rxmk(e.S.lit(src))
    l = models.rxalts(e, k)
    e.oblige(st, '%s names exactly the expected tokens' % static, l is not None and sorted(l) == sorted(names), 'post')
    h = models.ffhas(t, k); g = models.ffget(t, k); e.keep += [h, g]
    return h, g


rpok = z3.Function('repeat_ok', I, B); rplo = z3.Function('repeat_lo', I, I); rphi = z3.Function('repeat_hi', I, I); rperr = z3.Function('repeat_error', I, Str)


class Definition(ScriptFn):
    """name, attributes, inner modifier, repetition, outer modifier, discard: in that nesting"""
    id = 'C17'; path = P + 'construct_matcher_from_pattern_definition'
    def setup(s, e, st, args):
        s.ran = set()
        t = s.t = e.ex(args[1]).a
        s.nm = models.sv(e, st, args[2]); s.cap = e.ex(args[3])
        A = s.A = models.fcget(t, e.S.lit('Attributes'))
        s.hasA = models.fchas(t, e.S.lit('Attributes'))
        s.n = ival(s.nkids(e, st, A)); s.arr = e.hread(st, 'carr', A)
        i = z3.Int('i'); j = z3.Int('j')
        e.assume(st, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.n), e.hread(st, 'clen', z3.Select(s.arr, i)) >= 2)))
        # a generic attribute name and the first and last attribute that has it
        s.k0 = z3.Const('attr_name', Str); s.f = z3.Int('attr_first'); s.l = z3.Int('attr_last'); e.keep += [s.k0, s.f, s.l]
        key = lambda x: s.kv(e, st, x, 0)
        e.assume(st, And(s.f >= 0, s.f <= s.n))
        e.assume(st, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < s.f), key(j) != s.k0)))
        e.assume(st, z3.Implies(s.f < s.n, z3.And(key(s.f) == s.k0, key(s.l) == s.k0, s.f <= s.l, s.l < s.n)))
        e.assume(st, z3.ForAll([j], z3.Implies(z3.And(j > s.l, j < s.n), key(j) != s.k0)))
    def kv(s, e, st, i, q):
        c = z3.Select(s.arr, i)
        return (models.tok_value if q else models.tok_capv)(e, st, e.sel(st, e.hread(st, 'carr', c), q))
    def callee(s, e, st, c):
        if c.rp == P + 'construct_matcher_from_inner_definition':
            t = e.ex(c.vals[1]).a
            return built(e, st, c, t, iok(t), [im(t)], ierr(t))
        if c.rp == Repeat.path:
            t = e.ex(c.vals[0]).a; out = []
            for k in (True, False):
                s2 = st.copy()
                try: e.assume(s2, rpok(t) if k else Not(rpok(t)))
                except Infeasible: continue
                if k:
                    rt = e.T[c.dty]['args'][0]
                    e.assume(s2, And(rplo(t) >= 0, rplo(t) <= UMAX, rphi(t) >= 0, rphi(t) <= UMAX))
                    v = e.ex(SymV(rt, 'rng'))
                    v = Agg(rt, [rplo(t), rphi(t)])
                    out.append((s2, Enum(c.dty, 0, [v])))
                else: out.append((s2, Enum(c.dty, 1, [e.S.touch(rperr(t))])))
            return out
    def loop_terms(s, e, entry): return [('first', s.f), ('last', s.l)] if False else []
    def loop_cands(s, e, entry, hd, head, W, M):
        if hd.ghost.get('attrs') is not None: return [(('attributes set so far', p), lambda st, p=p: s.setsofar(e, st, W.get(st, p).i)) for p, it in iters(W, hd)] + \
            [(('the map', p), lambda st, p=p: And(W.get(st, p).src.has == st.ghost['attrs'][1].has, *[x == y for x, y in zip(W.get(st, p).src.arrs, st.ghost['attrs'][1].arrs)])) for p, it in iters(W, hd) if isinstance(it.src, MapV)]
        out = []
        maps = sorted({p[:-1] for p, (k, v, t) in M.items() if p[-1] == ('has',)}, key=str)
        for mp in maps:
            for ip, it in iters(W, hd):
                out.append((('attributes seen are in the map', mp, ip), lambda st, mp=mp, ip=ip: s.inmap(e, st, W.get(st, mp + (('has',),)), W.get(st, mp + (('val', 0),)), ival(W.get(st, ip).i))))
        return out
    def inmap(s, e, st, has, val, i):
        h = z3.Select(has, s.k0)
        return z3.And(h == (i > s.f), z3.Implies(z3.And(s.f < s.n, i > s.l), z3.Select(val, s.k0) == s.kv(e, st, s.l, 1)))
    def has(s, e, t, n): return models.fchas(t, e.S.lit(n))
    def post(s, e, st, v):
        t = s.t; v = e.ex(v)
        if not isinstance(v, Enum): raise Unsupported('result of unknown shape')
        isdef = s.isname(e, st, t, 'PatternDefinition')
        hp, pt = regex_child(s, e, st, t, 'PATTERN_MATCHER', Inner.KINDS)
        hr, rt = regex_child(s, e, st, t, 'REPEAT_SPECIFIER', ['RepeatZeroOrMore', 'RepeatOneOrMore', 'RepeatRange'])
        if v.v == 1:
            e.oblige(st, 'it fails only when the definition is unusable', core.Not(And(isdef, hp, iok(pt), z3.Or(z3.Not(hr), rpok(rt)))))
            er = models.sv(e, st, v.fs[0])
            e.oblige(st, "an unusable pattern's error is passed on", Implies(And(isdef, hp, core.Not(iok(pt))), eq(er, ierr(pt))))
            e.oblige(st, "an unusable repetition's error is passed on", Implies(And(isdef, hp, iok(pt), hr, core.Not(rpok(rt))), eq(er, rperr(rt))))
            s.frame(e, st); return
        e.oblige(st, 'an unusable definition is an error', And(isdef, hp, iok(pt), z3.Or(z3.Not(hr), rpok(rt))))
        pair = e.ex(v.fs[0]); out, inner = e.ex(pair.fs[0]).a, e.ex(pair.fs[1]).a
        m0 = im(pt)
        e.oblige(st, 'the inner matcher is the pattern itself', eq(inner, m0))
        # the name
        nev = [x for x in st.ev if x.kind == 'name']
        if s.is_(e, st, eq(s.nm, EMPTY)): e.oblige(st, 'without a name nothing is renamed', not nev)
        else:
            e.oblige(st, 'the pattern is named once', len(nev) == 1)
            if nev: e.oblige(st, 'the pattern itself takes the name', And(eq(nev[0].m, m0), eq(nev[0].case[0], s.nm)))
        # the wrapping
        want = []
        if s.is_(e, st, And(s.hasA, s.n > 0)): want.append('MapPattern')
        H = lambda n: s.is_(e, st, s.has(e, t, n))
        if H('InnerOptionalModifier'): want.append('OptionalPattern')
        elif H('InnerNotModifier'): want.append('NotPattern')
        if s.is_(e, st, hr): want.append('ProgramPattern')
        if H('OuterOptionalModifier'): want.append('OptionalPattern')
        elif H('OuterNotModifier'): want.append('NotPattern')
        if not s.is_(e, st, s.cap): want.append('DiscardPattern')
        new = s.new(st)
        e.oblige(st, 'the wrappers are: ' + (', '.join(want) or 'none'), [x.case[0] for x in new] == want)
        if [x.case[0] for x in new] != want: return
        cur = m0
        for x in new:
            k, how, a = x.case
            if k == 'ProgramPattern':
                adds = [y.case[0] for y in st.ev if y.kind == 'add' and e.entails(st, eq(y.m, x.m))]
                if how == 'new_blank_loop': r = a[0]
                elif how == 'new_loop':
                    r = a[1]; adds = [e.ex(e.elem(st, a[0], 0)).a] if e.entails(st, eq(models.seqlen(e, st, a[0]), 1)) else None
                else: raise Unsupported('loop built by ' + how)
                lo, hi = (r.fs[0], r.fs[1]) if isinstance(r, Agg) else (r.i, r.n)
                e.oblige(st, 'the loop repeats as the specifier says', And(eq(e.ex(lo), rplo(rt)), eq(e.ex(hi), rphi(rt))))
                e.oblige(st, 'the loop repeats exactly what was built so far', adds is not None and len(adds) == 1 and eq(adds[0], cur))
            else:
                e.oblige(st, '%s wraps what was built so far' % k, eq(a[0].a, cur))
                if k == 'MapPattern': s.mapclosure(e, st, a, x)
            cur = x.m
        e.oblige(st, 'the outermost wrapper is the result', eq(out, cur))
        e.oblige(st, 'nothing else is added to a matcher', len([y for y in st.ev if y.kind == 'add']) == len([x for x in new if x.case[1] == 'new_blank_loop']))
        s.frame(e, st)
    def mapclosure(s, e, st, a, x):
        """the closure that sets the attributes carries exactly the attributes described"""
        f = a[1]
        t = e.T[f.ty] if isinstance(f, Agg) else {}
        e.oblige(st, 'the attributes are set by the closure made for that', t.get('k') == 'closure' and t['s'].startswith('{closure@src/script/v1/parser.rs'))
        m = [e.ex(y) for y in f.fs]; m = [y for y in m if isinstance(y, MapV)]
        if len(m) != 1: raise Unsupported('what the attribute closure carries')
        e.oblige(st, 'the attributes carried are the described ones, a later one replacing an earlier one of the same name', s.inmap(e, st, m[0].has, m[0].arrs[0], s.n))
        if len(f.fs) == 1:
            if f.ty in s.ran: return
            s.ran.add(f.ty)
            m[0] = e.ex(SymV(m[0].ty, 'attrs', 0, 0)); f = Agg(f.ty, [m[0]])
        s.later.append((st.copy(), lambda st, f=f, m=m[0]: s.attrs(e, st, f, m)))
    def attrs(s, e, st, f, m):
        """the closure gives the token every attribute it does not have yet, and changes nothing else"""
        fn = e.p.by.get(e.T[f.ty]['inst'])
        ins = [e.ex(SymV(fn.locals[i], 'attr%d' % i, 0, 0)) for i in range(2, fn.argc + 1)]
        t = ins[0].a; n0 = len(st.ev)
        models.enumfacts(e, m.has)
        k = e.S.touch(z3.Const('attr_any', Str)); ix = models.enumidx(m.has, k); e.keep += [k, ix]
        st.ghost['attrs'] = (t, m, k, ix, dict(st.tok))
        def cont(e, s3, v):
            r = e.ex(v)
            if isinstance(r, Enum) and r.v == 0: r = e.ex(r.fs[0])
            ok = isinstance(r, Enum) and e.T[r.ty]['variants'][r.v]['name'] == 'Token'
            e.oblige(s3, 'attributes leave the token in place', ok)
            if ok: e.oblige(s3, 'attributes leave the token in place', eq(e.ex(r.fs[0]).a, t))
            e.oblige(s3, 'a token gets the attributes it does not have yet, and only those', s.setsofar(e, s3, models.enumn(m.has)))
            tok0 = s3.ghost['attrs'][4]; g = e.addr('g_frame', 0, 0)
            for l in TOK:
                old = e._hread(None, l, tok0[l], g); new = e.hread(s3, l, g)
                e.oblige(s3, 'attributes change nothing else (%s)' % l, Implies(Not(eq(g, t)), eq(new, old)) if l in ('ahas', 'aval') else eq(new, old), 'frame')
            e.oblige(s3, 'attributes do nothing else', len([x for x in s3.ev[n0:] if x.kind != 'loop']) == 0)
            return []
        c = models.C({}, [f, Agg(None, ins)], [], fn.locals[0])
        _, fn, a = models.inline(e, st, c, fn, c.vals)
        return e.push(st, fn, a, None, cont)
    def setsofar(s, e, st, i):
        t, m, k, ix, tok0 = st.ghost['attrs']; g = e.addr('g_frame', 0, 0)
        h0, v0 = e._hread(None, 'ahas', tok0['ahas'], t), e._hread(None, 'aval', tok0['aval'], t)
        h, v = e.hread(st, 'ahas', t), e.hread(st, 'aval', t)
        done = And(z3.Select(m.has, k), ix < ival(i))
        return And(z3.Select(h, k) == Or(z3.Select(h0, k), done), Implies(z3.Select(h, k), z3.Select(v, k) == If(z3.Select(h0, k), z3.Select(v0, k), z3.Select(m.arrs[0], k))),
                   *[Implies(g != t, e.hread(st, l, g) == e._hread(None, l, tok0[l], g)) for l in ('ahas', 'aval')])


class Pattern(ScriptFn):
    """captured or not, named or not"""
    id = 'C17'; path = P + 'construct_matcher_from_pattern'
    def setup(s, e, st, args):
        t = s.t = e.ex(args[1]).a
        n = ival(s.nkids(e, st, t)); s.N = e.S.lit('MatcherName'); s.nt = models.fcget(t, s.N)
        s.hasn = models.fchas(t, s.N)
        e.assume(st, Implies(s.isname(e, st, t, 'PatternDefinitionCaptured'), And(n >= 1, Implies(s.hasn, And(n >= 2, ival(s.nkids(e, st, s.nt)) >= 1)))))
    def callee(s, e, st, c):
        if c.rp == Definition.path:
            t = e.ex(c.vals[1]).a; r = e.ex(SymV(c.dty, 'definition'))
            st.ev = st.ev + (Ev(kind='def', m=t, case=(models.sv(e, st, c.vals[2]), e.ex(c.vals[3])), res=r),)
            return r
    def post(s, e, st, v):
        d = [x for x in st.ev if x.kind == 'def']; t = s.t
        if s.is_(e, st, s.isname(e, st, t, 'PatternDefinitionCaptured')):
            named = s.is_(e, st, s.hasn)
            e.oblige(st, 'one definition is built', len(d) == 1)
            e.oblige(st, 'it is captured', eq(d[0].case[1], True))
            if named:
                e.oblige(st, 'the definition is the second child', eq(d[0].m, s.child(e, st, t, 1)))
                nc = s.child(e, st, s.nt, 0); right = eq(d[0].case[0], models.tok_value(e, st, nc))
                # the existing tests pin the defect, so it is recorded, not repaired; no third name is accepted
                e.oblige(st, 'the name is the value, or the name, of the child of the MatcherName token', Or(right, eq(d[0].case[0], s.name_of(e, st, nc))))
                e.finding(st, 'pattern-name', 'the name is the value of the child of the MatcherName token', right)
            else:
                e.oblige(st, 'the definition is the first child', eq(d[0].m, s.child(e, st, t, 0)))
                e.oblige(st, 'it has no name', eq(d[0].case[0], EMPTY))
            s.same(e, st, 'what is built is returned unchanged', v, d[0].res)
        elif s.is_(e, st, s.isname(e, st, t, 'PatternDefinition')):
            e.oblige(st, 'one definition is built', len(d) == 1)
            e.oblige(st, 'the definition is the token itself', eq(d[0].m, t))
            e.oblige(st, 'it is not captured and has no name', And(eq(d[0].case[1], False), eq(d[0].case[0], EMPTY)))
            s.same(e, st, 'what is built is returned unchanged', v, d[0].res)
        else:
            e.oblige(st, 'nothing is built from another token', not d)
            s.err(e, st, 'another token is an error', v)
        s.frame(e, st)


ALL = [Repeat, Inner, Definition, Pattern]
