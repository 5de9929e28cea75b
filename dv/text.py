"""Contracts of the text matchers: Equals (C01), Matches (C02), Sequence (C03)."""
from .contract import *
from .models import selattr, joinf, rxm, rxs, rxe

NOATTR = None


def new_token(s, e, st, name, t, nm, cs, ce, ms, me, attrs=None, parser=None):
    """t is a new standard token with these contents; attrs: {key: value} or None for none"""
    r = e.frng(t)
    e.oblige(st, name + ': the token is new', r is not None and r[0] == 'f')
    T = s.tok(e, st, t)
    p = s.parser if parser is None else parser
    e.oblige(st, name + ': captured range', And(eq(T.cs, cs), eq(T.ce, ce)))
    e.oblige(st, name + ': matched range', And(eq(T.ms, ms), eq(T.me, me)))
    e.oblige(st, name + ': name', eq(T.name, nm))
    e.oblige(st, name + ': source', eq(T.parser, p))
    e.oblige(st, name + ': captured text', eq(T.capv, e.S.touch(rtext(p, ival(cs), ival(ce)))))
    e.oblige(st, name + ': matched text', eq(T.matv, e.S.touch(rtext(p, ival(ms), ival(me)))))
    e.oblige(st, name + ': no children, no parent, no flags', And(eq(T.clen, 0), eq(T.pset, False), eq(T.flags, 0), eq(T.pin, False), eq(T.vset, False)))
    has = z3.K(Str, z3.BoolVal(False))
    for k in (attrs or {}): has = z3.Store(has, e.S.lit(k), z3.BoolVal(True))
    e.oblige(st, name + ': attributes', simp(T.ahas == has))
    for k, x in (attrs or {}).items():
        e.oblige(st, name + ': attribute ' + k, eq(selattr(e, T.aval, e.S.lit(k)), x))


def fetched(s, e, st, which=None):
    return [x for x in st.ev if x.kind == 'fetch' and (which is None or pname(x.x) == which)]


def pname(x):
    """field of self a fetched parameter is"""
    n = getattr(x, 'name', None) or str(getattr(x, 't', ''))
    return n.split('self.')[-1]


def fetch_ok(s, e, st, f):
    e.oblige(st, 'the text is fetched in the current scope', eq(f.scope, s.scope.a))


class Equals(ExecContract):
    id = 'C01'; cls = 'matchers::equals::EqualsPattern'
    def post(s, e, st, v):
        fs = fetched(s, e, st)
        e.oblige(st, 'the literal is fetched once', len(fs) == 1)
        f = fs[0]; fetch_ok(s, e, st, f)
        i, p = f.case
        e.oblige(st, 'no pattern is run', not s.execs(st))
        sh = s.shape(e, v)
        if sh is None: raise Unsupported('result of unknown shape')
        if i == 1:
            e.oblige(st, 'a matcher instead of a text never succeeds', sh[0] in ('Fail', 'Error'))
        else:
            chunk = e.S.sub(s.src, s.w0, s.w1)
            ok = And(core.Not(eq(p, EMPTY)), bval(e.S.starts_with(chunk, p)))
            n = e.S.len(p)
            end = simp(ival(s.w0) + ival(n))
            if sh[0] == 'Token':
                e.oblige(st, 'success only where the window begins with the non-empty literal', ok)
                new_token(s, e, st, 'the token', sh[1][0].a, s.fld(e, 'name'), s.w0, end, s.w0, end)
            else:
                e.oblige(st, 'anything else is an ordinary failure', sh[0] == 'Fail')
                e.oblige(st, 'failure only where the window does not begin with the literal', core.Not(ok))
        s.frame(e, st)


class Matches(ExecContract):
    id = 'C02'; cls = 'matchers::matches::MatchesPattern'
    def post(s, e, st, v):
        e.oblige(st, 'no pattern is run', not s.execs(st))
        k = s.fld(e, 'regex').t
        chunk = e.S.sub(s.src, s.w0, s.w1)
        found, a, b = rxm(k, chunk), rxs(k, chunk), rxe(k, chunk)
        here = And(found, simp(a == 0))
        sh = s.shape(e, v)
        if sh is None: raise Unsupported('result of unknown shape')
        if sh[0] == 'Token':
            e.oblige(st, 'a token only for a non-empty match at the window start', And(here, b > 0))
            end = simp(ival(s.w0) + b)
            T = s.tok(e, st, sh[1][0].a)
            e.oblige(st, 'the token ends where the match ends', eq(T.me, end))
            new_token(s, e, st, 'the token', sh[1][0].a, s.fld(e, 'name'), s.w0, T.me, s.w0, T.me)
        elif sh[0] == 'Skip':
            e.oblige(st, 'a zero-width match skips nothing', eq(sh[1][0], 0))
            e.oblige(st, 'a skip only for a zero-width match at the window start', And(here, b == 0))
        else:
            e.oblige(st, 'anything else is an ordinary failure', sh[0] == 'Fail')
            e.oblige(st, 'failure only without a match at the window start', core.Not(here))
        s.frame(e, st)


spos = z3.Function('seq_pos', Str, I, Str, Str, I, I, Str, I)
sval = z3.Function('seq_val', Str, I, Str, Str, I, I, Str, Str)


class Sequence(ExecContract):
    """The scan is specified by a tail-recursive function over the text, unfolded once per loop iteration:
         S(i,p,acc) = none                                    if i >= window end
                    = found(i, acc + text[p..i])              if the end delimiter occurs at i within the window
                    = S(j + |char at j|, j, acc + text[p..i]) if the escape occurs at i, j = i + |escape|
                    = S(i + |char at i|, p, acc)              otherwise                                     """
    id = 'C03'; cls = 'matchers::sequence::SequencePattern'
    fetch_self = True
    aliases = (True, False)

    def override2(s, e, st, c): return None

    def fetch(s, e, st, c):
        r = super().fetch(e, st, c)
        for s2, v in r:
            f = s2.ev[-1]
            nm = pname(f.x)
            if nm in ('start', 'end') and v.v == 0:
                e.assume(s2, core.Not(eq(f.case[1], EMPTY)))        # precondition: delimiters are not empty
        return r

    def join(s, e, st, v, sep):
        if not sep.eq(EMPTY): raise Unsupported('join with a separator')
        return joined(e, v.arrs[0], v.len)

    def pats(s, e, st):
        d = {}
        for n in ('start', 'end', 'escape'):
            fs = fetched(s, e, st, n)
            if len(fs) != 1 or fs[0].case[0] != 0: return None
            d[n] = fs[0].case[1]
        return d

    def at(s, e, i, p):
        """text p (non-empty) occurs at i within the window"""
        chunk = e.S.sub(s.src, i, s.w1)
        return And(simp(ival(i) < ival(s.w1)), core.Not(eq(p, EMPTY)), bval(e.S.starts_with(chunk, p)))

    def S(s, e, d, i, p, acc):
        a = (s.src, ival(s.w1), d['end'], d['escape'], ival(i), ival(p), acc)
        return spos(*a), e.S.touch(sval(*a))

    def unfold(s, e, d, i, p, acc):
        key = ('unfold', ival(i).get_id(), ival(p).get_id(), acc.get_id())
        if key in e.opq: return
        e.opq[key] = True; e.keep += [ival(i), ival(p), acc]
        pos, val = s.S(e, d, i, p, acc)
        i = ival(i)
        inwin = simp(i < ival(s.w1))
        fe = s.at(e, i, d['end']); fx = s.at(e, i, d['escape'])
        upto = e.S.cat(acc, e.S.sub(s.src, p, i))
        j = simp(i + ival(e.S.len(d['escape'])))
        cj = e.S.clen(s.src, j); ci = e.S.clen(s.src, i)
        lj = z3.If(ival(j) < slen(s.src), cj, 1)
        p1, v1 = s.S(e, d, simp(ival(j) + lj), j, upto)
        p2, v2 = s.S(e, d, simp(i + ci), p, acc)
        imp = lambda c, f: e.fact(z3.Implies(bval(c), f))
        imp(core.Not(inwin), pos == -1)
        imp(And(inwin, fe), z3.And(pos == i, val == upto))
        imp(And(inwin, core.Not(fe), fx), z3.And(pos == p1, val == v1))
        imp(And(inwin, core.Not(fe), core.Not(fx)), z3.And(pos == p2, val == v2))

    def loop_cands(s, e, entry, hd, head, W, M):
        from .loops import term, scalar_sort
        d = s.pats(e, entry)
        if d is None: return []
        ints = [p for p, (k, v, t) in M.items() if k == 'leaf' and p[0][0] == 'loc' and scalar_sort(W.get(entry, p)) == I and p[-1] not in (('len',), ('i',), ('n',))]
        accs = [p for p in {q[:-1] for q in M if q[-1] in (('len',), ('arr', 0)) and q[0][0] == 'loc'}
                if isinstance(W.get(entry, p), VecV) and e.scalar(W.get(entry, p).et) == 'str']
        strs = [p for p, (k, v, t) in M.items() if k == 'leaf' and p[0][0] == 'loc' and scalar_sort(W.get(entry, p)) == Str and p[-1][0] != 'arr']
        out = []
        n = len(ints)
        for p in ints:
            out.append((('bnd', p), lambda st, p=p: z3.Or(term(W.get(st, p)) > slen(s.src), bval(e.S.isb(s.src, term(W.get(st, p)))))))
            out.append((('cap', p), lambda st, p=p: z3.Or(term(W.get(st, p)) <= slen(s.src), term(W.get(st, p)) >= ival(s.w1))))
            out.append((('lim', p), lambda st, p=p: term(W.get(st, p)) <= slen(s.src) + 1))
            out.append((('len', p), lambda st, p=p: term(W.get(st, p)) <= slen(s.src)))
        i0 = simp(ival(s.w0) + ival(e.S.len(d['start'])))
        p0, v0 = s.S(e, d, i0, i0, EMPTY)
        def acc(st, a):
            v = W.get(st, a)
            return joined(e, v.arrs[0], v.len) if isinstance(v, VecV) else v
        for i in ints:
            for q in ints:
                if i == q and n > 1: continue
                for a in accs + strs:
                    def f(st, i=i, q=q, a=a):
                        x, y = s.S(e, d, term(W.get(st, i)), term(W.get(st, q)), acc(st, a))
                        if st.loc is hd.loc or getattr(st, 'ctl', None) == 'x': pass
                        return z3.And(x == p0, y == v0)
                    out.append((('scan', i, q, a), f))
                    try: s.unfold(e, d, term(W.get(hd, i)), term(W.get(hd, q)), acc(hd, a))
                    except Exception as x: raise
        return out

    def post(s, e, st, v):
        d = s.pats(e, st)
        e.oblige(st, 'no pattern is run', not s.execs(st))
        for f in fetched(s, e, st): fetch_ok(s, e, st, f)
        sh = s.shape(e, v)
        if sh is None: raise Unsupported('result of unknown shape')
        if d is None:
            e.oblige(st, 'a matcher instead of a text never succeeds', sh[0] in ('Fail', 'Error'))
            s.frame(e, st); return
        chunk = e.S.sub(s.src, s.w0, s.w1)
        begins = bval(e.S.starts_with(chunk, d['start']))
        i0 = simp(ival(s.w0) + ival(e.S.len(d['start'])))
        pos, val = s.S(e, d, i0, i0, EMPTY)
        s.unfold(e, d, i0, i0, EMPTY)
        if sh[0] == 'Token':
            t = sh[1][0].a
            e.oblige(st, 'success only where the window begins with the start delimiter', begins)
            e.oblige(st, 'success only when an unprotected end delimiter is met', pos >= 0)
            T = s.tok(e, st, t)
            e.oblige(st, 'the match ends after the end delimiter', eq(T.me, simp(pos + ival(e.S.len(d['end'])))))
            e.oblige(st, 'the capture ends before the end delimiter', eq(T.ce, pos))
            new_token(s, e, st, 'the token', t, s.fld(e, 'name'), i0, T.ce, s.w0, T.me, {'__value': val})
        else:
            e.oblige(st, 'anything else is an ordinary failure', sh[0] == 'Fail')
            e.oblige(st, 'failure only without start delimiter or without an unprotected end delimiter', core.Not(And(begins, pos >= 0)))
        s.frame(e, st)


def joined(e, arr, n):
    """concatenation of the first n strings of arr"""
    n = simp(ival(n)) if isz(n) else n
    if isinstance(n, int) and n == 0: return EMPTY
    if z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_STORE:
        k = simp(arr.arg(1))
        d = simp(ival(n) - ival(k))
        if d == 1: return e.S.cat(joined(e, arr.arg(0), k), arr.arg(2))
        if isinstance(d, int) and d < 1: return joined(e, arr.arg(0), n)
    return e.S.touch(joinf(arr, ival(n), EMPTY))


from .simple import nr, NameRule
class NamedSequence(NameRule, Sequence): pass
NAMED = [nr('Equals', 'matchers::equals::EqualsPattern'), nr('Matches', 'matchers::matches::MatchesPattern'), NamedSequence]
ALL = [Equals, Matches, Sequence] + NAMED
