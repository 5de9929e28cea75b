"""Contracts of Program, Switch and Loop (one implementation).  The specification is an automaton that is advanced at
every run of a child pattern: position, iteration, accumulated ranges and children, and its own copy of the token
heap (what the tokens should look like).  The code has to agree with it at every child run and on return."""
from .contract import *
from . import loops
from .simple import errs, ErrorRule

AI = z3.ArraySort(I, I); AS = z3.ArraySort(I, Str); AB = z3.ArraySort(I, B)
ACC = ['cs', 'ce', 'ms', 'me', 'n', 'off']
HL = {'cs': AI, 'ce': AI, 'ms': AI, 'me': AI, 'capv': AS, 'matv': AS, 'pset': AB, 'parent': AI}
CN = ACC + ['arr'] + ['H' + l for l in HL]            # what adding the children of a flattened token changes
CS = [I] * len(ACC) + [AI] + list(HL.values())


class Box:            # opaque to the loop analysis
    def __init__(s, **k): s.__dict__.update(k)


MX = z3.IntVal(UMAX)


class ProgramBase(ExecContract):
    cls = 'matchers::program::ProgramPattern'
    payload = True
    maxpaths = 60000
    merge = True
    empty = None             # with patterns only / without patterns only / both

    def setup(s, e, st):
        e.assume(st, And(s.fld(e, 'on_first_match').tag == (1 if s.kind == 'switch' else 0), s.fld(e, 'iterate_range').tag == (1 if s.kind == 'loop' else 0)))
        pats = s.fld(e, 'patterns')
        s.pats = pats; s.npat = ival(pats.len)
        s.name = s.fld(e, 'name'); s.customf = s.fld(e, 'custom_name')
        if s.kind == 'loop':
            r = e.ex(e.payload(s.fld(e, 'iterate_range'), 1, 0))
            s.lo, s.hi = ival(e.ex(r.fs[0])), ival(e.ex(r.fs[1]))
        else: s.lo, s.hi = None, z3.IntVal(1)
        g = st.ghost
        g['pi'] = 0; g['it'] = 0; g['oc'] = 0; g['out'] = None; g['prog'] = None; g['fold'] = None
        g['cs'] = UMAX; g['ce'] = 0; g['ms'] = UMAX; g['me'] = 0; g['n'] = 0; g['off'] = s.w0
        g['arr'] = models.nil(I)
        for l in TOK: g['H' + l] = st.tok[l]
        out = []
        for x in ExecContract.setup(s, e, st):
            if s.empty is not False: a = x.copy(); e.assume(a, s.npat == 0); a.ghost['mt'] = True; out.append(a)
            if s.empty is not True: x.ghost['mt'] = False; e.assume(x, s.npat > 0); out.append(x)
        ts = s.cget(e, s.cv, 'token_stack')
        s.ts = ts
        return out

    def on_token_alloc(s, e, st, a):
        if st.ghost['prog'] is None: st.ghost['prog'] = RcV(a, models.tokrc(e) if False else 0)
        for l in TOK: st.ghost['H' + l] = z3.Store(st.ghost['H' + l], a, models_leaf(e, st, l, a))

    def ghost_hav(s, e, st, k):
        for l in TOK: st.ghost['H' + l] = e.havarr(l, st.ghost['H' + l], k)

    # ---- a child runs
    def registered(s, e, st, ch, when):
        sets = []
        while ch[0] != 'base':
            if ch[0] == 'set': sets.append(ch)
            ch = ch[1]
        c = e.case(st, bval(s.customf))
        if c:
            e.oblige(st, 'a matcher with a custom name is registered under it (%s)' % when, len(sets) == 1)
            e.oblige(st, 'the name is registered (%s)' % when, eq(sets[0][2], s.name))
            v = e.ex(sets[0][3])
            e.oblige(st, 'the matcher itself is registered (%s)' % when, isinstance(v, Enum) and isinstance(e.ex(v.fs[0]), RcV) and eq(e.ex(v.fs[0]).a, s.this.a))
        else: e.oblige(st, 'nothing is stored in the scope (%s)' % when, len(sets) == 0)

    def exec_event(s, e, st, c, recv, vals):
        g = st.ghost
        e.oblige(st, 'no pattern runs after the outcome is decided', eq(g['oc'], 0))
        ctx = e.ex(vals[2]); sc = e.ex(vals[3])
        cv = s.cellval(e, st, ctx)
        pi = ival(g['pi'])
        if s.kind == 'loop': e.oblige(st, 'the loop never runs more often than its maximum', ival(g['it']) < s.hi)
        else: e.oblige(st, 'the patterns run once', eq(g['it'], 0))
        e.oblige(st, 'a pattern of this program runs', pi < s.npat)
        e.oblige(st, 'the patterns run in order, each once', eq(recv.a, e.sel(st, s.pats.arrs[0], pi)) if isinstance(recv, SymMatcher) else False)
        a, b = s.window(e, cv)
        e.oblige(st, 'each pattern runs where the consumed input before it ends', eq(a, g['off']))
        e.oblige(st, "each pattern sees the caller's window end", eq(b, s.w1))
        e.oblige(st, 'each pattern reads the same source', eq(s.cget(e, cv, 'parser').a, s.parser))
        e.oblige(st, "each pattern's context carries the caller's scope", eq(s.cget(e, cv, 'scope').a, s.ctxscope))
        e.oblige(st, "each pattern runs in the caller's scope", eq(sc.a, s.scope.a))
        e.oblige(st, "a pattern has a context of its own", And(ctx.a != s.ctx.a))
        ts = s.cget(e, cv, 'token_stack')
        L = ival(s.ts.len)
        e.oblige(st, 'the program is the innermost open token', And(eq(ts.len, simp(L + 1)), eq(e.sel(st, ts.arrs[0], L), g['prog'].a)) if g['prog'] is not None else False)
        s.registered(e, st, s.chain(e, st, sc.a), 'run')
        if g['prog'] is not None: s.ptok(e, st)
        return ExecContract.exec_event(s, e, st, c, recv, vals)

    def ptok(s, e, st):
        p = st.ghost['prog'].a
        e.oblige(st, "the program's token has its name", eq(e.hread(st, 'name', p), s.name))
        e.oblige(st, "the program's token belongs to the same source", eq(e.hread(st, 'parser', p), s.parser))

    # ---- how the specification moves on
    def H(s, e, st, l, a): return e._hread(st, l, st.ghost['H' + l], a)
    def W(s, e, st, l, a, v):
        v = ival(v) if TOK[l] == I else bval(v) if TOK[l] == B else v
        st.ghost['H' + l] = z3.Store(st.ghost['H' + l], a, v)

    def refreshed(s, e, st, a, which, x, y, pin):
        p = s.H(e, st, 'parser', a)
        t = e.S.touch(rtext(p, ival(x), ival(y)))
        return If(pin, s.H(e, st, {'captured': 'capv', 'matched': 'matv'}[which], a), t)

    def contain(s, st, x, y, a, b):
        g = st.ghost
        g[x] = If(ival(a) < ival(g[x]), a, g[x]); g[y] = If(ival(b) > ival(g[y]), b, g[y])

    def addtok(s, e, st, t, update, pin):
        """states in which the token has been added to the program"""
        out = []
        H = lambda x, l: s.H(e, x, l, t)
        for s1, er in models.fork(e, st, simp((H(st, 'flags') & 0x02) != 0)):
            for s2, adj in (models.fork(e, s1, And(eq(H(s1, 'ms'), H(s1, 'me')), core.Not(eq(s1.ghost['ms'], UMAX)))) if er else [(s1, False)]):
                if adj:
                    m0, m1 = s2.ghost['ms'], H(s2, 'me')
                    tx = s.refreshed(e, s2, t, 'captured', m0, m1, pin); ty = s.refreshed(e, s2, t, 'matched', m0, m1, pin)
                    for l, v in (('cs', m0), ('ce', m1), ('ms', m0), ('me', m1), ('capv', tx), ('matv', ty)):
                        if v is not None: s.W(e, s2, l, t, v)
                if update:
                    s.contain(s2, 'cs', 'ce', H(s2, 'cs'), H(s2, 'ce'))
                    s.contain(s2, 'ms', 'me', H(s2, 'ms'), H(s2, 'me'))
                    s2.ghost['off'] = H(s2, 'me')
                s.W(e, s2, 'pset', t, True); s.W(e, s2, 'parent', t, s2.ghost['prog'].a)
                s2.ghost['arr'] = z3.Store(s2.ghost['arr'], ival(s2.ghost['n']), t)
                s2.ghost['n'] = simp(ival(s2.ghost['n']) + 1)
                out.append(s2)
        return out

    def accof(s, st):
        g = st.ghost
        return {x: (ival(g[x]) if x in ACC else g[x]) for x in CN}

    def fstep(s, e, st, t, upd, prog, f):
        """the accumulator f after adding child t of a flattened token"""
        hr = lambda l: e._hread(st, l, f['H' + l], t)
        g = lambda l: e._hread(st, l, st.tok[l], t)
        er = simp((g('flags') & 0x02) != 0); pin = g('pin')
        ms, me = ival(hr('ms')), ival(hr('me'))
        adj = And(er, eq(ms, me), core.Not(eq(f['ms'], UMAX)))
        tx = e.S.touch(rtext(g('parser'), f['ms'], me))
        y = dict(f)
        for l, v in (('cs', f['ms']), ('ce', me), ('ms', f['ms']), ('capv', tx), ('matv', tx)):
            h = f['H' + l]
            y['H' + l] = h if adj is False else z3.If(bval(adj), z3.Store(h, t, v), h)
        w = {'cs': f['ms'], 'ce': me, 'ms': f['ms'], 'me': me}
        r = lambda l: ival(If(adj, w[l], hr(l)))
        if upd:
            for x, z in (('cs', 'ce'), ('ms', 'me')):
                y[x] = ival(If(r(x) < f[x], r(x), f[x])); y[z] = ival(If(r(z) > f[z], r(z), f[z]))
            y['off'] = r('me')
        y['Hpset'] = z3.Store(f['Hpset'], t, z3.BoolVal(True)); y['Hparent'] = z3.Store(f['Hparent'], t, prog)
        y['arr'] = z3.Store(f['arr'], f['n'], t)
        y['n'] = z3.simplify(f['n'] + 1)
        if pin is False: return y
        p = bval(pin)
        return {x: z3.If(p, f[x], y[x]) if not y[x].eq(f[x]) else f[x] for x in CN}

    def folded(s, b, k, a): return b.P(ival(k), *[a[x] for x in CN])

    def unfold(s, e, st, b, k, a):
        """what follows from: after k children the accumulator is a"""
        k = ival(k)
        x = z3.simplify(z3.Select(b.arr, k)); e.keep.append(x)
        if e.frng(x) is None: e.setrng(x, 0, b.hi)
        e.assume(st, x != b.w)            # contract of children: a token is not its own child
        y = s.fstep(e, st, x, b.upd, b.prog, a)
        e.assume(st, z3.Implies(k < b.n, s.folded(b, z3.simplify(k + 1), y)))
        e.assume(st, z3.Implies(k >= b.n, z3.And(*[b.fin[c] == a[c] for c in CN])))

    def extract(s, e, st, w, update):
        g = st.ghost
        H = lambda l: s.H(e, st, l, w)
        if update:
            s.contain(st, 'cs', 'ce', H('cs'), H('ce')); s.contain(st, 'ms', 'me', H('ms'), H('me'))
            g['off'] = H('me')
        me = H('me')
        u = '%d_%d' % (st.epoch, update)
        fin = {x: z3.Const('fold%s_%s' % (u, x), t) for x, t in zip(CN, CS)}
        b = Box(w=w, arr=H('carr'), n=ival(H('clen')), upd=update, prog=g['prog'].a, a0=s.accof(st), hi=st.epoch, fin=fin,
                P=z3.Function('folded' + u, *([I] + CS + [B])))
        e.keep += list(fin.values()) + [b.P]
        g['fold'] = b
        e.assume(st, s.folded(b, 0, b.a0))
        e.assume(st, ival(fin['n']) <= 2 ** 62)          # vectors never grow past isize::MAX
        for x in CN:
            if not update and x in ('cs', 'ce', 'ms', 'me', 'off'): continue
            g[x] = fin[x]
            if x[0] == 'H': e.arrhi[fin[x].get_id()] = st.epoch
        if update: g['off'] = me
        return [st]

    def skip(s, e, st, n):
        g = st.ghost
        o = simp(ival(g['off']) + ival(n))
        e.assume(st, And(o >= 0, o <= slen(s.src)))           # contract of children: a skip stays in the source
        g['off'] = o
        s.contain(st, 'ms', 'me', s.w0, o)
        return [st]

    def next(s, e, st):
        g = st.ghost
        out = []
        p = simp(ival(g['pi']) + 1)
        for s1, last in models.fork(e, st, simp(ival(p) == s.npat)):
            if last: s1.ghost['pi'] = 0; s1.ghost['it'] = simp(ival(s1.ghost['it']) + 1)
            else: s1.ghost['pi'] = p
            out.append(s1)
        return out

    def end(s, st, *o):
        st.ghost['oc'] = 1; st.ghost['out'] = Box(o=o)
        return [st]

    def after_exec(s, e, st, ev):
        g = st.ghost
        k = ev.case[0]
        sw = s.kind == 'switch'
        if g['prog'] is None: raise Unsupported('no token of the program yet')
        if k == 'Error': return s.end(st, 'same', ev.res)
        if k == 'Fail':
            if sw: return s.next(e, st)
            if s.kind == 'program': return s.end(st, 'fail')
            out = []
            for s1, few in models.fork(e, st, ival(g['it']) < s.lo): out += s.end(s1, 'fail') if few else s.end(s1, 'final', False, None)
            return out
        if k == 'None': return s.end(st, 'panic')
        if k == 'Stop': return s.end(st, 'final', True, None)
        out = []
        if k in ('Token', 'ProxyChildren'):
            t = e.ex(ev.case[1]).a
            e.assume(st, ival(s.H(e, st, 'me', t)) <= slen(s.src))       # contract of children: matches lie in the source
            for s1, pin in models.fork(e, st, s.H(e, st, 'pin', t)):
                if pin: out += s.next(e, s1); continue
                if sw: out += s.end(s1, 'same', ev.res); continue
                for s2, cons in models.fork(e, s1, mcons(ev.m)):
                    if k == 'Token':
                        err = simp((s.H(e, s2, 'flags', t) & 0x02) != 0)
                        stuck = And(core.Not(err), eq(s.H(e, s2, 'me', t), s2.ghost['off'])) if cons else False
                        for s3, z in models.fork(e, s2, stuck):
                            if z: out += s.end(s3, 'panic'); continue
                            for s4 in s.addtok(e, s3, t, cons, False): out += s.next(e, s4)
                    else:
                        for s3 in s.extract(e, s2, t, cons): out += s.next(e, s3)
            return out
        if k == 'Skip':
            n = ev.case[1]
            if sw:
                for s1, pos in models.fork(e, st, ival(n) > 0):
                    if pos: out += s.end(s1, 'same', ev.res)
                    else:
                        for s2, cons in models.fork(e, s1, mcons(ev.m)):
                            for s3 in (s.skip(e, s2, n) if cons else [s2]): out += s.next(e, s3)
                return out
            for s2, cons in models.fork(e, st, mcons(ev.m)):
                for s3 in (s.skip(e, s2, n) if cons else [s2]): out += s.next(e, s3)
            return out
        # Break / Continue
        if sw: return s.end(st, 'same', ev.res)
        nm, pay = e.ex(ev.case[1]), ev.case[2]
        sts = []
        pn = MS[pay.v]
        if pn in ('Token', 'ProxyChildren'):
            t = e.ex(pay.fs[0]).a
            e.assume(st, ival(s.H(e, st, 'me', t)) <= slen(s.src))
            for s1, pin in models.fork(e, st, s.H(e, st, 'pin', t)):
                sts += s.addtok(e, s1, t, not pin, pin) if pn == 'Token' else s.extract(e, s1, t, not pin)
        elif pn == 'Skip': sts = s.skip(e, st, pay.fs[0])
        else: sts = [st]
        for s1 in sts:
            for s2, mine in (models.fork(e, s1, Or(eq(nm, s.name), eq(nm, EMPTY))) if s.kind == 'loop' else [(s1, False)]):
                if not mine: out += s.end(s2, 'final', False, (k, nm))
                elif k == 'Break': out += s.end(s2, 'final', False, None)
                else:
                    s2.ghost['pi'] = 0; s2.ghost['it'] = simp(ival(s2.ghost['it']) + 1); out.append(s2)
        return out

    # ---- loop invariants
    def loop_terms(s, e, entry): return [('max', lambda st: s.hi), ('patterns', lambda st: s.npat)]
    def loop_cands(s, e, entry, hd, head, W, M):
        out = [(('run',), lambda st: eq(st.ghost['oc'], 0)), (('off',), lambda st: And(ival(st.ghost['off']) >= 0, ival(st.ghost['off']) <= slen(s.src)))]
        for p, it in iters(W, hd):
            out.append((('n', p), lambda st, p=p: ival(W.get(st, p).n) == s.npat))
        if any(p[0] == ('ghost', 'pi') for p in M):
            it0 = ival(entry.ghost['it'])
            out.append((('pi0',), lambda st: eq(st.ghost['pi'], 0)))
            for p, (kind, v, ty) in M.items():
                if p[0][0] == 'ghost' or kind != 'leaf' or loops.scalar_sort(v) != I: continue
                out.append((('pos', p), lambda st, p=p: Or(
                    And(eq(st.ghost['it'], it0), eq(st.ghost['pi'], W.get(st, p)), ival(W.get(st, p)) < s.npat),
                    And(eq(st.ghost['it'], it0 + 1), eq(st.ghost['pi'], 0), eq(W.get(st, p), s.npat)))))
        prog = entry.ghost['prog']
        if prog is not None:
            for l in ('name', 'parser', 'pin'):
                v0 = e.hread(entry, l, prog.a)
                out.append((('prog', l), lambda st, l=l, v0=v0: eq(e.hread(st, l, prog.a), v0)))
            L = ival(s.ts.len)
            for p, (kind, v, ty) in M.items():
                if p[-1][0] == 'arr' and loops.scalar_sort(v) == AI:
                    a0 = z3.Store(W.get(entry, p), L, prog.a)
                    out.append((('stack', p), lambda st, p=p, a0=a0: z3.Store(W.get(st, p), L, prog.a) == a0))
        B_ = entry.ghost.get('fold')
        if B_ is not None and not any(p[0] == ('ghost', 'pi') for p in M):
            ips = [p for p, it in iters(W, hd)] + [p for p, (kind, v, ty) in M.items() if kind == 'leaf' and loops.scalar_sort(v) == I]
            out += s.foldcands(e, entry, hd, W, M, B_, [p for p, it in iters(W, hd)])
            for l in ('ms', 'me', 'cs', 'ce'):
                v0 = e.hread(entry, l, B_.w)
                out.append((('wrapper', l), lambda st, l=l, v0=v0: eq(e.hread(st, l, B_.w), v0)))
            for p, it in iters(W, hd): out.append((('nf', p), lambda st, p=p: ival(W.get(st, p).n) == B_.n))
        return out

    def foldcands(s, e, entry, hd, W, M, b, its):
        opts = {}
        for x in ['arr'] + ACC:
            t = b.a0[x]
            c = []
            for p, (kind, v, ty) in M.items():
                if kind != 'leaf' or p[0][0] in ('ghost', 'tok') or p[-1] in (('i',), ('len',)): continue
                try: v0 = W.get(entry, p)
                except (loops.Shape, KeyError): continue
                if loops.scalar_sort(v0) != t.sort(): continue
                v0 = loops.term(v0)
                if v0.eq(t) or e.entails(entry, v0 == t): c.append(p)
            opts[x] = c
        asg = [{}]
        for x in ['arr'] + ACC:
            n = []
            for a in asg:
                if x == 'n':
                    if a['arr'] is None: n.append(dict(a, n=None))
                    else: n.append(dict(a, n=a['arr'][:-1] + (('len',),)))
                    continue
                used = set(a.values())
                cs = [p for p in opts[x] if p not in used]
                for p in cs or [None]: n.append(dict(a, **{x: p}))
            asg = n[:16]
        out = []
        for ip in its:
            for a in asg:
                def f(st, a=a, ip=ip):
                    acc = {x: (loops.term(W.get(st, a[x])) if a[x] is not None else b.a0[x]) for x in ACC + ['arr']}
                    for l in HL: acc['H' + l] = st.tok[l]
                    i = W.get(st, ip).i
                    if st is hd: s.unfold(e, st, b, i, acc)
                    return s.folded(b, i, acc)
                out.append((('fold', ip, tuple(sorted((k, v) for k, v in a.items() if v is not None))), f))
        return out

    def loopkey(s, e, st):
        b = st.ghost['fold']
        return (len(st.stack), st.ghost['mt'], b.upd if b is not None else None, e.entails(st, s.ctxscope == s.scope.a))

    # ---- the outcome
    def on_panic(s, e, st, msg):
        o = st.ghost['out']
        if o is not None and o.o[0] == 'panic': return
        e.oblige(st, 'never reached: ' + str(msg)[:120], False, 'panic')

    def heap(s, e, st):
        for l in TOK: e.oblige(st, 'every token is as specified (%s)' % l, st.tok[l] == st.ghost['H' + l])

    def post(s, e, st, v):
        g = st.ghost
        s.registered(e, st, s.chain(e, st, s.scope.a), 'return')
        oc = e.case(st, eq(g['oc'], 0))
        if not oc and g['out'] is None: raise Unsupported('outcome unknown')
        if oc:
            o = ('final', True, None)
            if g['mt']: g['it'] = s.hi
            else:
                e.oblige(st, 'every pattern has run', eq(g['pi'], 0))
                e.oblige(st, 'the loop ends early only where it has to' if s.kind == 'loop' else 'the patterns have run once', eq(g['it'], s.hi))
        else: o = g['out'].o
        if o[0] == 'panic': e.oblige(st, 'a pattern that makes no progress is rejected', False)
        sh = s.shape(e, v)
        if sh is None: raise Unsupported('result of unknown shape')
        if o[0] == 'same': s.same(e, st, 'the result is passed on unchanged', v, o[1])
        elif o[0] == 'fail': e.oblige(st, 'the result is a failure', sh[0] == 'Fail')
        else:
            _, check, wrap = o
            it, n = ival(g['it']), ival(g['n'])
            a = And(s.lo == 0, it == 0, n == 0) if s.kind == 'loop' and check else False
            b = (it < s.lo) if s.kind == 'loop' and check else False
            c = Or(ival(g['cs']) == MX, ival(g['ms']) == MX, n == 0)
            ok = And(core.Not(a), core.Not(b), core.Not(c))
            p = g['prog'].a if g['prog'] is not None else None
            if sh[0] == 'Fail':
                e.oblige(st, 'it fails only with too few runs or nothing captured', And(core.Not(a), Or(b, c)))
            elif sh[0] == 'Skip' and wrap is None:
                e.oblige(st, 'it skips only where no run was needed and none completed', a)
                e.oblige(st, 'it skips nothing', eq(sh[1][0], 0))
            else:
                e.oblige(st, 'it succeeds only with enough runs and something captured', ok)
                if wrap is None: tk = s.expect_shape(e, st, 'the result is one token', v, 'Token')[0]
                else:
                    tup = e.ex(s.expect_shape(e, st, 'the signal is passed outward', v, wrap[0])[0])
                    e.oblige(st, 'the signal keeps its loop name', eq(e.ex(tup.fs[0]), wrap[1]))
                    q = e.ex(tup.fs[1])
                    if not isinstance(q, Enum): raise Unsupported('payload of unknown shape')
                    e.oblige(st, 'the signal carries what was matched so far', q.v == 0)
                    tk = e.ex(q.fs[0])
                e.oblige(st, "the result is the program's own token", eq(tk.a, p))
                s.ptok(e, st)
                pr = s.H(e, st, 'parser', p)
                for l, x in (('cs', g['cs']), ('ce', g['ce']), ('ms', g['ms']), ('me', g['me']), ('clen', g['n']), ('carr', g['arr']),
                             ('capv', e.S.touch(rtext(pr, ival(g['cs']), ival(g['ce'])))), ('matv', e.S.touch(rtext(pr, ival(g['ms']), ival(g['me']))))):
                    e.oblige(st, {'cs': 'captured start', 'ce': 'captured end', 'ms': 'matched start', 'me': 'matched end', 'clen': 'number of children',
                                  'carr': 'the children are what was captured, in order', 'capv': 'captured text', 'matv': 'matched text'}[l], eq(e.hread(st, l, p), x))
                    s.W(e, st, l, p, x)
        s.heap(e, st)


def models_leaf(e, st, l, a): return core_val(l, e.hread(st, l, a))
def core_val(l, v): return ival(v) if TOK[l] == I else bval(v) if TOK[l] == B else v


class Program(ProgramBase): id = ['C04', 'C06']; kind = 'program'
class Switch(ProgramBase): id = 'C05'; kind = 'switch'
class LoopEmpty(ProgramBase): id = 'C06'; kind = 'loop'; empty = True
class LoopOwn(ProgramBase): id = 'C06'; kind = 'loop'; empty = False; aliases = (True,)
class LoopOther(ProgramBase): id = 'C06'; kind = 'loop'; empty = False; aliases = (False,)


class FatalBase(ErrorRule, ExecContract):
    """C08: a fatal error ends the program at once"""
    cls = ProgramBase.cls; payload = True; merge = True; panics_ok = True; maxpaths = 60000
    def setup(s, e, st):
        e.assume(st, And(s.fld(e, 'on_first_match').tag == (1 if s.kind == 'switch' else 0), s.fld(e, 'iterate_range').tag == (1 if s.kind == 'loop' else 0)))
        return ExecContract.setup(s, e, st)


class FatalProgram(FatalBase): kind = 'program'
class FatalSwitch(FatalBase): kind = 'switch'
class FatalLoop(FatalBase): kind = 'loop'


class NamedBase(FatalBase):
    """C11: a program, switch or loop with a custom name is known under it before any of its patterns runs, and it puts nothing else into a scope"""
    id = 'C11'
    def setup(s, e, st):
        s.name = s.fld(e, 'name'); s.customf = s.fld(e, 'custom_name')
        return FatalBase.setup(s, e, st)
    registered = ProgramBase.registered
    def exec_event(s, e, st, c, recv, vals):
        s.registered(e, st, s.chain(e, st, s.scope.a), 'run')
        return ExecContract.exec_event(s, e, st, c, recv, vals)
    def post(s, e, st, v):
        s.registered(e, st, s.chain(e, st, s.scope.a), 'return')


class NamedProgram(NamedBase): kind = 'program'
class NamedSwitch(NamedBase): kind = 'switch'
class NamedLoop(NamedBase): kind = 'loop'


ALL = [NamedProgram, NamedSwitch, NamedLoop, FatalProgram, FatalSwitch, FatalLoop, Program, Switch, LoopEmpty, LoopOwn, LoopOther]
