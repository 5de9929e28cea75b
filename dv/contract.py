"""Contracts: the base class.  A contract fixes an initial symbolic state for a function of the crate, the
contracts of what that function calls (child matchers, function parameters, abstract scope stack), and the
obligations that every path must meet on return."""
import z3
from .vals import *
from .strs import Str, EMPTY, slen
from . import core, models
from .core import (I, B, UMAX, TOK, rtext, psource, pfile, mname, mcons, mcustom, isz, ival, bval, simp, And, Or, Not,
                   If, eq, Implies, State, Engine)

NUL = None
isbnd = None


class Ev:
    """one run of a child matcher"""
    __slots__ = ('m', 'this', 'ctx', 'cv', 'scope', 'chain', 'res', 'epoch', 'case', 'kind', 'x')
    def __init__(s, **k):
        for n in s.__slots__: setattr(s, n, k.get(n))


class ScopeV:         # the abstract contents of a ScopeContext cell
    __slots__ = ('a',)
    def __init__(s, a): s.a = a


class Cell0:
    def __init__(s, a): s.a = a


MS = ['Token', 'ProxyChildren', 'Skip', 'Break', 'Continue', 'None', 'Stop']


class Contract:
    """subclasses define: id, name, fn(prog) -> Fn, setup(e, st), post(e, st, ret)"""
    panics_ok = False
    debug = False            # True: debug_mode unconstrained
    payload = False          # fork on the payload of signals
    abstract_scope = True
    selftok = None
    maxpaths = 20000
    merge = False            # True: small diamonds are merged instead of forked

    def __init__(s):
        s.notes = []; s.later = []

    # ---- construction
    def build(s, prog, timeout):
        e = Engine(prog, s, timeout)
        s.e = e
        st = State()
        st.loc = {}; st.stack = (); st.cells = {}; st.tok = {}; st.pc = (); st.epoch = 0; st.nalloc = 0
        st.ghost = {}; st.scopes = {}; st.ev = (); st.known = {}; st.ctl = None
        e.A(0)
        for k, srt in TOK.items():
            a = z3.Const('T0_' + k, z3.ArraySort(I, srt)); e.keep.append(a)
            e.arrhi[a.get_id()] = 0
            st.tok[k] = a
        s.T0 = dict(st.tok)
        s.msty = prog.ty('matcher::MatcherSuccess') if 'matcher::MatcherSuccess' in prog.sidx else None
        s.mfty = prog.sidx.get('matcher::MatcherFailure')
        s.resty = prog.sidx.get('core::result::Result<matcher::MatcherSuccess, matcher::MatcherFailure>')
        return e, st

    def enter(s, e, st, fn, args):
        st.stack = ((fn, 0, None, 'END'),)
        for i, a in enumerate(args): st.loc[(0, i + 1)] = a
        return st

    def arg(s, e, fn, i, name):
        """fresh symbolic argument i (1-based); references become references to an anonymous symbolic value"""
        return e.expand(SymV(fn.locals[i], name)) if e.T[fn.locals[i]]['k'] in ('ref', 'ptr') or e.scalar(fn.locals[i]) else SymV(fn.locals[i], name)

    # ---- cells reached through Rc addresses
    def cell(s, e, st, a, ty):
        t = e.T[ty]
        if e.ismatcher(ty): return SymMatcher(a)
        ity = e.strip(ty); it = e.T[ity]
        p = it.get('path', '')
        nm = 'c[%s]' % z3.simplify(a)
        if p == 'parser::Parser' or p.endswith('::Parser'):
            fs = []
            for n, x in it['variants'][0]['fields']:
                if n == 'source': fs.append(e.S.touch(psource(a)))
                elif n == 'filename': fs.append(e.S.touch(pfile(a)))
                else: fs.append(SymV(x, nm + '.' + n))
            return Agg(ity, fs)
        if p.endswith('ScopeContext') and s.abstract_scope:
            return ScopeV(a)
        k = ('cell', a.get_id())
        if k not in e.opq:
            e.keep.append(a)
            hi = 0
            r = e.frng(a)
            if r is not None and r[0] == 'r': hi = r[2]
            v = e.ex(SymV(ity, nm, 0, hi))
            if p.endswith('ParserContext'): v = s.ctx_default(e, st, v)
            e.opq[k] = v
        return e.opq[k]

    def ctx_default(s, e, st, v):
        if not s.debug:
            fs = list(v.fs); fs[s.cf(e, 'debug_mode')] = 0
            v = Agg(v.ty, fs)
        return v

    def cty(s, e): return e.p.ty('parser_context::ParserContext')

    def cf(s, e, n):
        for i, (f, t) in enumerate(e.T[s.cty(e)]['variants'][0]['fields']):
            if f == n: return i
        raise LookupError(n)

    def cget(s, e, v, n): return e.ex(v.fs[s.cf(e, n)])

    def window(s, e, cv):
        o = s.cget(e, cv, 'offset')
        return e.ex(o.fs[0]), e.ex(o.fs[1])

    def may_write_cell(s, e, st, a, ty):
        return False

    def cellval(s, e, st, rc):
        return e.ex(e.cell(st, ('C', rc.a, rc.ty)))

    def wellformed(s, e, st, ctxrc):
        """precondition of every exec: the window lies in the source on character boundaries"""
        cv = s.cellval(e, st, ctxrc)
        a, b = s.window(e, cv)
        p = s.cget(e, cv, 'parser').a
        src = e.S.touch(psource(p))
        e.assume(st, And(simp(ival(a) <= ival(b)), simp(ival(b) <= slen(src))))
        e.assume(st, And(bval(e.S.isb(src, a)), bval(e.S.isb(src, b))))
        return cv

    # ---- abstract scope stack: chain of operations on the initial contents
    def chain(s, e, st, a):
        k = a.get_id()
        if k not in st.scopes:
            for kk, (b, ch) in list(st.scopes.items()):
                if ch[0] != 'base' and not e.distinct(a, b):
                    if e.entails(st, a == b): return ch
                    if not e.entails(st, a != b): raise Unsupported('possibly aliased scope stacks')
            e.keep.append(a)
            st.scopes[k] = (a, ('base', str(z3.simplify(a))))
        return st.scopes[k][1]

    def setchain(s, e, st, a, ch):
        s.chain(e, st, a)
        for kk, (b, c0) in list(st.scopes.items()):
            if kk != a.get_id() and not e.distinct(a, b):
                if e.entails(st, a == b): st.scopes[kk] = (b, ch); continue
                if not e.entails(st, a != b): raise Unsupported('possibly aliased scope stacks')
        st.scopes[a.get_id()] = (a, ch)

    def depth(s, ch):
        n = 0
        while ch[0] != 'base':
            if ch[0] == 'push': n += 1
            elif ch[0] == 'pop': n -= 1
            ch = ch[1]
        return n

    def chname(s, ch):
        if ch[0] == 'base': return ch[1]
        if ch[0] == 'havoc': return 'h%s(%s)' % (ch[2], s.chname(ch[1]))
        if ch[0] == 'set': return 'set(%s,%s,%s)' % (s.chname(ch[1]), ch[2], s.vname(ch[3]))
        return '%s(%s,%s)' % (ch[0], s.chname(ch[1]), ch[2] if len(ch) > 2 else '')

    def vname(s, v):
        return repr(v)

    def scope_get(s, e, st, a, name, dty, ch=None):
        """what a lookup yields: [(state, value)], split where the name may be one that was just set"""
        if ch is None: ch = s.chain(e, st, a)
        out = []
        while ch[0] == 'set':
            d = e.decide(st, eq(ch[2], name))
            if d is True:
                out.append((st, Enum(dty, 1, [ch[3]]))); return out
            if d is None:
                s2 = st.copy(); e.assume(s2, eq(ch[2], name))
                out.append((s2, Enum(dty, 1, [ch[3]])))
                e.assume(st, Not(eq(ch[2], name)))
            ch = ch[1]
        out.append((st, SymV(dty, 'get{%s}{%s}' % (s.chname(ch), name), 0, st.epoch)))
        return out

    def scope_holds(s, e, st, a, name, dty, ch=None):
        """the value a lookup yields, for use in specifications"""
        if ch is None: ch = s.chain(e, st, a)
        while ch[0] == 'set':
            if e.case(st, eq(ch[2], name)): return Enum(dty, 1, [ch[3]])
            ch = ch[1]
        return SymV(dty, 'get{%s}{%s}' % (s.chname(ch), name), 0, st.epoch)

    def scope_call(s, e, st, c, name):
        if not c.vals: return None
        v = models.der(e, st, c.vals[0])
        if not isinstance(v, ScopeV): return None
        a = v.a
        if name == 'get': return s.scope_get(e, st, a, models.sv(e, st, c.vals[1]), c.dty)
        if name == 'set':
            n = models.sv(e, st, c.vals[1])
            val = e.ex(c.vals[2])
            ch = s.chain(e, st, a)
            e.keep.append(n)
            st.ev = st.ev + (Ev(kind='set', scope=a, case=(n, val)),)
            s.setchain(e, st, a, ('set', ch, n, val))
            return SymV(c.dty, 'oldval{%s}{%s}' % (s.chname(ch), n), 0, st.epoch)
        if name == 'push':
            ch = s.chain(e, st, a)
            s.setchain(e, st, a, ('push', ch, str(e.ex(c.vals[1]).a)))
            st.ev = st.ev + (Ev(kind='push', scope=a, case=(e.ex(c.vals[1]).a,)),)
            return Agg(c.dty, [])
        if name == 'pop':
            ch = s.chain(e, st, a)
            s.setchain(e, st, a, ('pop', ch))
            st.ev = st.ev + (Ev(kind='pop', scope=a),)
            return SymV(c.dty, 'popped{%s}' % s.chname(ch), 0, st.epoch)
        raise Unsupported('ScopeContext::' + name)

    # ---- overrides: contracts of functions that are verified separately
    def override(s, e, st, c):
        rp = c.rp
        if rp == 'source_range::SourceRange::to_string':
            r = models.der(e, st, c.vals[0])
            p = models.der(e, st, c.vals[1])
            if isinstance(p, RcV):
                return e.S.touch(rtext(p.a, ival(e.ex(r.fs[0])), ival(e.ex(r.fs[1]))))
            return None
        if rp.startswith('scope_context::ScopeContext::') and s.abstract_scope:
            return s.scope_call(e, st, c, c.name)
        if rp == 'parser_context::ParserContext::debug_range':
            return e.str('debug_range:%d' % e.fresh_uid())
        if rp == 'parser_context::ParserContext::get_error_as_string':
            cv = models.der(e, st, c.vals[0])
            m = models.sv(e, st, c.vals[1]); r = models.der(e, st, c.vals[2])
            p = s.cget(e, cv, 'parser').a
            return e.S.touch(models.errstr(p, m, ival(e.ex(r.fs[0])), ival(e.ex(r.fs[1]))))
        if c.ft.get('trait') == 'matchers::fetch::Fetchable' and c.ft.get('kind') == 'unresolved':
            return s.fetch(e, st, c)
        return s.override2(e, st, c)

    def override2(s, e, st, c): return None

    def fetch(s, e, st, c):
        """Fetchable::fetch_value of an unknown implementation: some string or matcher; nothing else changes"""
        ctx = e.ex(c.vals[1]); sc = e.ex(c.vals[2])
        n = len([x for x in st.ev if x.kind == 'fetch'])
        r = e.ex(SymV(c.dty, 'fetch%d' % n))
        out = []
        for i in (0, 1):
            s2 = st.copy()
            e.assume(s2, r.tag == i)
            x = e.ex(e.payload(r, i, 0))
            v = Enum(c.dty, i, [x])
            s2.ev = s2.ev + (Ev(kind='fetch', ctx=ctx.a, scope=sc.a, res=v, case=(i, x), cv=s.cellval(e, s2, ctx), x=models.der(e, st, c.vals[0]) if s.fetch_self else None),)
            out.append((s2, v))
        return out
    fetch_self = False

    # ---- events
    def exec_event(s, e, st, c, recv, vals):
        if not isinstance(recv, SymMatcher): raise Unsupported('exec of a matcher built here')
        this = e.ex(vals[1]); ctx = e.ex(vals[2]); sc = e.ex(vals[3])
        cv = s.cellval(e, st, ctx)
        e.oblige(st, 'the matcher that runs is told which matcher it is', eq(this.a, recv.a), 'pre')
        s.child_pre(e, st, recv.a, ctx, cv)
        ch = s.chain(e, st, sc.a)
        k = e.bump(st)
        e.hav(st, k)
        s.ghost_hav(e, st, k)
        e.bump(st)
        # everything reachable from the scope the child was given may have changed, with the depth restored
        ctxsc = s.cget(e, cv, 'scope').a
        for x in (sc.a, ctxsc):
            s.chain(e, st, x)
        for kk, (b, c0) in list(st.scopes.items()):
            st.scopes[kk] = (b, ('havoc', c0, k))
        r = SymV(c.dty, 'x%d' % k, k, k + 1)
        ev = Ev(kind='exec', m=recv.a, this=this.a, ctx=ctx.a, cv=cv, scope=sc.a, chain=ch, epoch=k, res=r)
        return s.split_result(e, st, ev, c.dty)

    def child_pre(s, e, st, m, ctx, cv):
        """the window handed to a child is well formed"""
        pass

    def ghost_hav(s, e, st, k): pass

    def split_result(s, e, st, ev, dty):
        """one state per shape of the child's result"""
        r = e.ex(ev.res)
        out = []
        okv = e.ex(e.payload(r, 0, 0)); erv = e.ex(e.payload(r, 1, 0))
        cases = []
        for i, n in enumerate(MS): cases.append((0, okv, i, n))
        for i, n in enumerate(['Fail', 'Error']): cases.append((1, erv, i, n))
        for k, v, i, n in cases:
            s2 = st.copy()
            e.assume(s2, r.tag == k); e.assume(s2, v.tag == i)
            fs = [e.payload(v, i, j) for j in range(len(e.T[v.ty]['variants'][i]['fields']))]
            fs = [s.norm(e, f) for f in fs]
            if n in ('Break', 'Continue'):
                tup = e.ex(fs[0]); nm = e.ex(tup.fs[0]); pay = e.ex(tup.fs[1])
                for j, pn in enumerate(MS):
                    if pn in ('Break', 'Continue'): continue
                    if not s.payload and j: break
                    s3 = s2.copy() if s.payload else s2
                    if s.payload:
                        e.assume(s3, pay.tag == j)
                        pfs = [e.ex(e.payload(pay, j, q)) for q in range(len(e.T[pay.ty]['variants'][j]['fields']))]
                        p2 = Enum(pay.ty, j, pfs)
                    else:
                        e.assume(s3, And(pay.tag != 3, pay.tag != 4)); p2 = pay
                    v2 = Enum(dty, 0, [Enum(v.ty, i, [Agg(tup.ty, [nm, p2])])])
                    s.emit(e, s3, ev, v2, (n, nm, p2), out)
                continue
            v2 = Enum(dty, k, [Enum(v.ty, i, fs)])
            s.emit(e, s2, ev, v2, (n,) + tuple(fs), out)
        e.stats['paths'] += len(out)
        return out

    def norm(s, e, f):
        t = e.strip(f.ty) if type(f) is SymV else None
        if t is not None and (e.scalar(t) or e.k(t) in ('tuple',)): return e.ex(f)
        return f

    def emit(s, e, st, ev, v, case, out):
        n = Ev(**{k: getattr(ev, k) for k in Ev.__slots__})
        n.res = v; n.case = case
        st.ev = st.ev + (n,)
        try:
            for s2 in s.after_exec(e, st, n):
                out.append((s2, v))
        except Infeasible: pass

    def after_exec(s, e, st, ev): return [st]

    def on_fn(s, e, st, c, ref, v): return None
    def on_matcher(s, e, st, c, m): return None
    def on_token_alloc(s, e, st, a): pass
    def find_child_ok(s, e, st, a): raise Unsupported('child lookup')
    def join(s, e, st, v, sep): raise Unsupported('join')
    def split_facts(s, e, st, a, sep, n, arr): pass
    def rx_facts(s, e, k, x): pass
    def is_match_facts(s, e, st, k, x): pass
    def loop_cands(s, e, entry, hd, head, W, M): return []
    def loop_terms(s, e, entry): return []
    def loop_back(s, e, st, head): pass
    def loopkey(s, e, st): return len(st.stack)
    def unroll(s, e, st, fn, head): return False

    def on_panic(s, e, st, msg):
        if s.panics_ok: return
        e.oblige(st, 'never reached: ' + str(msg)[:120], False, 'panic')

    def on_return(s, e, st, v):
        if e.muted: return
        e.returns = getattr(e, 'returns', 0) + 1
        s.post(e, st, v)

    # ---- spec helpers
    def execs(s, st): return [x for x in st.ev if x.kind == 'exec']

    def Ok(s, e, variant, *fs): return Enum(s.resty, 0, [Enum(s.msty, MS.index(variant), list(fs))])
    def Err(s, e, n, *fs): return Enum(s.resty, 1, [Enum(s.mfty, 0 if n == 'Fail' else 1, list(fs))])

    def sig(s, e, n, name, pay):
        tt = e.T[s.msty]['variants'][MS.index(n)]['fields'][0][1]
        return s.Ok(e, n, Agg(tt, [name, pay]))

    def same(s, e, st, name, a, b, kind='post'):
        """oblige structural equality of two values, field by field for readable failures"""
        try: f = e.eqv(st, a, b)
        except Unsupported as x:
            raise
        e.oblige(st, name, f, kind)

    def where(s, e, st, name, cond, a, b):
        """oblige: cond implies a equals b"""
        cond = simp(cond) if isz(cond) else cond
        if cond is False: return
        d = e.decide(st, cond)
        if d is False: return
        f = e.eqv(st, a, b)
        e.oblige(st, name, f if d is True else Implies(cond, f))

    def shape(s, e, v):
        """(variant name, fields) of a Result<MatcherSuccess, MatcherFailure> value; None when symbolic"""
        v = e.ex(v)
        if not isinstance(v, Enum): return None
        w = e.ex(v.fs[0])
        if not isinstance(w, Enum): return None
        n = MS[w.v] if v.v == 0 else ['Fail', 'Error'][w.v]
        return n, [e.ex(x) for x in w.fs]

    def tok(s, e, st, a): return Tok(e, st, a)

    def expect_shape(s, e, st, name, v, n):
        sh = s.shape(e, v)
        if sh is None: raise Unsupported('result of unknown shape')
        e.oblige(st, name, sh[0] == n)
        return sh[1]

    def frame(s, e, st, name='tokens that existed before are unchanged', also=()):
        """every token allocated before the call has all its fields unchanged (generic address g)"""
        g = e.addr('g_frame', 0, 0)
        for leaf in TOK:
            e.oblige(st, '%s (%s)' % (name, leaf), eq(e.hread(st, leaf, g), e._hread(st, leaf, s.T0[leaf], g)), 'frame')


class Tok:
    """read access to a token in a state"""
    def __init__(s, e, st, a): s.__dict__.update(e=e, st=st, a=a)
    def __getattr__(s, k): return s.e.hread(s.st, k, s.a)


class ExecContract(Contract):
    """a contract for <X as Matcher>::exec"""
    cls = None               # path of the struct, without generics
    custom = None            # None: from the code's has_custom_name

    def fn(s, prog):
        f = prog.impl.get(('matcher::Matcher', 'exec', s.cls))
        if f is None: raise LookupError('no exec for ' + s.cls)
        return f

    def fld(s, e, n):
        for i, (f, t) in enumerate(e.T[s.selfty]['variants'][0]['fields']):
            if f == n: return e.ex(s.selfv.fs[i])
        raise LookupError('%s has no field %s' % (s.cls, n))

    def hasfld(s, e, n):
        return any(f == n for f, t in e.T[s.selfty]['variants'][0]['fields'])

    def start(s, prog, timeout):
        e, st = s.build(prog, timeout)
        fn = s.fn(prog)
        s.selfty = e.T[fn.locals[1]]['t']
        s.selfv = e.ex(SymV(s.selfty, 'self'))
        s.this = e.ex(SymV(fn.locals[2], 'this'))
        s.ctx = e.ex(SymV(fn.locals[3], 'ctx'))
        s.scope = e.ex(SymV(fn.locals[4], 'scope'))
        s.enter(e, st, fn, [Ref(('V', s.selfv)), s.this, s.ctx, s.scope])
        s.cv = s.wellformed(e, st, s.ctx)
        s.w0, s.w1 = s.window(e, s.cv)
        s.parser = s.cget(e, s.cv, 'parser').a
        s.src = e.S.touch(psource(s.parser))
        s.ctxscope = s.cget(e, s.cv, 'scope').a
        sts = s.setup(e, st)
        return e, (sts if sts is not None else [st])

    # the caller's scope and the scope of its context may or may not be the same object
    aliases = (True, False)

    def setup(s, e, st):
        out = []
        for al in s.aliases:
            n = st.copy()
            e.assume(n, s.ctxscope == s.scope.a if al else s.ctxscope != s.scope.a)
            out.append(n)
        return out

    def on_return(s, e, st, v):
        if e.muted: return
        e.returns = getattr(e, 'returns', 0) + 1
        # part of the contract of every matcher: signal payloads are not signals, the caller's window is untouched
        w = s.window(e, s.cellval(e, st, s.ctx))
        e.oblige(st, "the caller's window is unchanged", And(eq(w[0], s.w0), eq(w[1], s.w1)), 'frame')
        s.post(e, st, v)

    def at_window(s, e, st, ev, name='the child runs at the caller\'s window'):
        a, b = s.window(e, ev.cv)
        e.oblige(st, name, And(eq(a, s.w0), eq(b, s.w1)))
        e.oblige(st, 'the child reads the same source', eq(s.cget(e, ev.cv, 'parser').a, s.parser))
        e.oblige(st, "the child's context carries the caller's scope", eq(s.cget(e, ev.cv, 'scope').a, s.ctxscope))

    def same_scope(s, e, st, ev):
        e.oblige(st, "the child runs in the caller's scope", eq(ev.scope, s.scope.a))

    def once(s, e, st, m, window=True, scope=True):
        """exactly one child run, of matcher m; returns the event"""
        ex = s.execs(st)
        e.oblige(st, 'the pattern runs exactly once', len(ex) == 1)
        ev = ex[0]
        e.oblige(st, 'the pattern that runs is the given one', eq(ev.m, m))
        if window: s.at_window(e, st, ev)
        if scope: s.same_scope(e, st, ev)
        return ev


class FnContract(Contract):
    """a contract for a free function or inherent method; `path` names it"""
    path = None
    def fn(s, prog):
        r = [f for f in prog.fns if f.path == s.path and '::promoted[' not in f.key]
        if not r: raise LookupError('no function ' + s.path)
        return r[0]
    def start(s, prog, timeout):
        e, st = s.build(prog, timeout)
        fn = s.fn(prog)
        s.args = [s.arg(s.e, fn, i, 'a%d' % i) for i in range(1, fn.argc + 1)]
        r = s.setup(e, st, s.args)
        if isinstance(r, tuple): s.args = list(r); r = None
        out = [s.enter(e, x, fn, s.args) for x in (r if isinstance(r, list) else [st])]
        return e, out
    def setup(s, e, st, args): return None


def iters(W, st):
    """paths of iterators over sequences live in a state"""
    out = []
    for root, v, ty in list(W.roots(st)):
        if isinstance(v, It): out.append(((root,), v))
        elif isinstance(v, Agg):
            for i, x in enumerate(v.fs):
                if isinstance(x, It): out.append(((root, ('f', i)), x))
    return out
