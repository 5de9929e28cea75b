"""C17: a whole script becomes a matcher.  The hooks of the visitor are closures of build_matcher_from_tokens: each is
verified here on an arbitrary token of its name, in the state the function is in when the visit starts; the visit itself
is used by its contract (C14)."""
from .contract import *
from .script import ScriptFn, Pattern, Definition, bok, bm, bi, berr, P, built
from . import loops

dok = z3.Function('definition_ok', I, Str, B); dm = z3.Function('definition_built', I, Str, I); di = z3.Function('definition_inner', I, Str, I)
derr = z3.Function('definition_error', I, Str, Str)
pdir = z3.Function('path_parent', Str, Str); pjoin = z3.Function('path_join', Str, Str, Str); pcan = z3.Function('path_canonical', Str, Str); pex = z3.Function('path_exists', Str, B)
fsrc = z3.Function('file_text', Str, Str); fhas = z3.Function('file_readable', Str, B)
cok = z3.Function('file_compiles', Str, B); cctx = z3.Function('file_context', Str, I); cm = z3.Function('file_matcher', Str, I); cs = z3.Function('file_scope', Str, I)
cnt = z3.Function('definitions_before', I, I)
HOOKS = ['Error', 'AdextopaScope', 'AssignmentExpression', 'ImportStatement', 'PatternScope']
PREFIX = 'Error attempting to create matcher from parsed pattern token: '


class BuildScript(ScriptFn):
    id = 'C17'; path = P + 'build_matcher_from_tokens'
    panics_ok = False
    def setup(s, e, st, args):
        s.root = e.ex(args[0]).a; s.ctx = e.ex(args[1]); s.nm = models.sv(e, st, args[2]); s.from_ = args[3]; s.args = args
        st.ghost.update({'hook': None, 'pn': z3.IntVal(0), 'parr': z3.Const('parr0', z3.ArraySort(I, I)), 'nset': z3.IntVal(0), 'nval': EMPTY, 'visit': None})
        s.g = z3.Int('g_child'); e.keep.append(s.g)
        s.notes.append('paths (std::path, the file system) are uninterpreted functions of their text; paths are UTF-8 and a script has a directory'); s.notes.append('an import statement has a path and names, and every name a text, as the grammar makes them')
        s.notes.append('shapes of script tokens assumed from the grammar: AssignmentExpression has two children, Error tokens carry a __message')

    # ---- callees by contract
    def override(s, e, st, c):
        if c.rp == 'scope_context::ScopeContext::new':
            a = e.alloc(st); st.ev = st.ev + (Ev(kind='new', m=a, case=('ScopeContext', 'new', [])),)
            return RcV(a, e.T[c.dty]['args'][0])
        return super().override(e, st, c)
    def on_panic(s, e, st, msg):
        if st.ghost.get('hook') == 'ImportStatement':
            L = e.S.lit; has = [models.fchas(s.ht, L('ImportIdentifiers')), models.fchas(s.ht, L('Path'))]
            if z3.is_expr(st.ghost.get('pn')) or isinstance(st.ghost.get('pn'), int):
                has.append(models.fchas(s.child(e, st, s.ids, simp(st.ghost['pn'])), L('ImportName')))
            return e.oblige(st, 'an import statement of the grammar does not panic: ' + str(msg)[:120], Not(And(*has)), 'panic')
        return super().on_panic(e, st, msg)
    def callee(s, e, st, c):
        rp = c.rp
        if rp.startswith('token_visitor::TokenVisitor') and c.name == 'visit': return s.visit(e, st, c)
        if rp == Pattern.path:
            t = e.ex(c.vals[1]).a
            return built(e, st, c, t, bok(t), [bm(t), bi(t)], berr(t))
        if rp == Definition.path:
            t = e.ex(c.vals[1]).a; n = models.sv(e, st, c.vals[2]); cap = e.ex(c.vals[3])
            e.oblige(st, 'a definition in an assignment is captured', eq(cap, True), 'pre')
            return built(e, st, c, t, dok(t, n), [dm(t, n), di(t, n)], derr(t, n))
        if rp == P + 'compile_script_from_file_internal': return s.import_(e, st, c)
        m = re.fullmatch(r'std::path::(Path|PathBuf)::(\w+)', rp)
        if m: return s.path_(e, st, c, m.group(2))
        if 'path::PathBuf as' in rp and c.name == 'deref': return e.ex(c.vals[0]) if not isinstance(e.ex(c.vals[0]), Ref) else models.der(e, st, c.vals[0])
    def path_(s, e, st, c, n):
        a = [models.sv(e, st, x) for x in c.vals]
        T = lambda f, *x: e.S.touch(f(*x))
        if n in ('new', 'as_path'): return a[0]
        if n == 'parent': return Enum(c.dty, 1, [T(pdir, a[0])])
        if n == 'join': return T(pjoin, a[0], a[1])
        if n == 'canonicalize': return s.io(e, st, c, 'locate', pex(a[0]), a[0], lambda s2: T(pcan, a[0]))
        if n == 'to_str': return Enum(c.dty, 1, [a[0]])
        raise Unsupported('Path::' + n)
    def io(s, e, st, c, kind, ok, x, res):
        """the file system: the call succeeds for some paths and fails for the others"""
        out = []
        for k in (0, 1):
            s2 = st.copy()
            try: e.assume(s2, Not(ok) if k else ok)
            except Infeasible: continue
            s2.ev = s2.ev + (Ev(kind=kind, case=(k == 0, x)),)
            out.append((s2, Enum(c.dty, k, [SymV(e.T[c.dty]['args'][1], 'io_error', 0, st.epoch) if k else res(s2)])))
        return out
    def import_(s, e, st, c):
        """what the import builds is new to this function: its matcher, context and scope are not this script's"""
        f = models.sv(e, st, c.vals[0])
        s.text_(e, st, 'the file imported is the one the path names, next to the importing file', f, s.file(e, st))
        out = []
        for k in (True, False):
            s2 = st.copy()
            try: e.assume(s2, cok(f) if k else Not(cok(f)))
            except Infeasible: continue
            s2.ev = s2.ev + (Ev(kind='import', case=(k, f)),)
            rt = e.T[c.dty]
            if k:
                pt = rt['args'][0]
                for m in [x.m for x in s.new(s2)]: e.assume(s2, And(cs(f) != m, cm(f) != m, cctx(f) != m))
                out.append((s2, Enum(c.dty, 0, [Agg(pt, [RcV(g(f), e.T[q]['args'][0]) for g, q in zip((cctx, cm, cs), e.T[pt]['ts'])])])))
            else:
                out.append((s2, Enum(c.dty, 1, [SymV(rt['args'][1], 'import_errors', 0, st.epoch)])))
        return out
    def file(s, e, st):
        t = s.ht
        return pcan(pjoin(pdir(s.frm), models.tok_value(e, st, models.fcget(t, e.S.lit('Path')))))

    # ---- the visit
    def errs_at(s, e, st):
        out = []
        for k, x in st.loc.items():
            if k[0] >= 0:
                x = e.ex(x) if x is not None else x
                if isinstance(x, VecV) and e.T[x.et].get('path') == 'parse_error::ParseError': out.append(k)
        return out
    def visit(s, e, st, c):
        vis = models.der(e, st, c.vals[0]); hv = e.ex(vis.fs[0])
        e.oblige(st, 'the tree visited is the script', eq(e.ex(c.vals[1]).a, s.root), 'pre')
        if not isinstance(hv.len, int): raise Unsupported('number of hooks')
        errs = s.errs_at(e, st)
        if len(errs) != 1: raise Unsupported('where the errors are collected')
        s.el = errs[0]
        if st.ghost['visit'] is not None: raise Unsupported('a second visit')
        hooks = {}
        for i in range(hv.len):
            x = e.ex(e.elem(st, hv, i)); n = e.S.text(models.sv(e, st, x.fs[0])); a = e.ex(x.fs[1]).a
            cell = st.cells.get(a.get_id())
            if n is None or cell is None: raise Unsupported('hook of unknown name')
            hooks.setdefault(n, cell[1])
        for n in hooks:
            if n not in HOOKS: raise Unsupported('a hook for %s tokens' % n)
        for n in HOOKS: e.oblige(st, '%s tokens have a hook' % n, n in hooks)
        news = s.new(st)
        R = [x for x in news if x.case[0] == 'ProgramPattern' and x.case[1] == 'new_program_with_name']
        S = [x for x in news if x.case[0] == 'ProgramPattern' and x.case[1] == 'new_program']
        X = [x for x in news if x.case[0] == 'ScopeContext']
        if len(R) != 1 or len(S) != 1 or len(X) != 1: raise Unsupported('which matchers are built')
        s.R, s.S, s.X = R[0].m, S[0].m, X[0].m
        s.resty = c.dty
        st.ghost['visit'] = len(st.ev)
        side = []
        for n in HOOKS:
            if n in hooks: side += s.hookstate(e, st.copy(), n, hooks[n], c.dty)
        # what the visit leaves behind
        out = []
        ev = SymV(e.locty(st, s.el) if hasattr(e, 'locty') else s.errty(e, st), 'collected', 0, st.epoch)
        for k in (True, False):
            s2 = st.copy(); s2.loc[s.el] = s.collected(e, s2, 'collected')
            if k: out.append((s2, Enum(c.dty, 0, [Agg(e.T[c.dty]['args'][0], [])])))
            else:
                x = SymV(e.T[c.dty]['args'][1], 'visit_error', 0, st.epoch); x = e.ex(x)
                s2.ghost['verr'] = x
                out.append((s2, Enum(c.dty, 1, [x])))
        return ('mixed', side, out)
    def errty(s, e, st): return None
    def collected(s, e, st, nm):
        old = e.ex(st.loc[s.el]); s.lty = old.ty; v = e.ex(SymV(old.ty, nm, 0, st.epoch)); return v

    # ---- the hooks
    def hookstate(s, e, st, n, f, rty):
        f = e.ex(f); k = 0
        while k < 6 and not (isinstance(f, Agg) and e.T[f.ty]['k'] == 'closure'):
            if isinstance(f, DynV): f = e.ex(f.val)
            elif isinstance(f, Agg) and len(f.fs) == 1: f = e.ex(f.fs[0])
            elif isinstance(f, Ref): f = e.ex(e.rd(st, f.root, f.path))
            else: break
            k += 1
        if not (isinstance(f, Agg) and e.T[f.ty]['k'] == 'closure'): raise Unsupported('hook that is no closure')
        fn = e.p.by.get(e.T[f.ty]['inst'])
        tv = e.ex(SymV(fn.locals[2], 'hooktok', 0, 0)); t = tv.a
        e.assume(st, s.isname(e, st, t, n))
        st.loc[s.el] = s.collected(e, st, 'before_' + n)
        st.ghost['hook'] = n; st.ghost['t'] = t; st.ghost['base'] = len(st.ev); st.ghost['errs0'] = e.ex(st.loc[s.el])
        st.ghost['pn'] = z3.IntVal(0)
        getattr(s, 'pre_' + n, lambda *a: None)(e, st, t)
        if n == 'ImportStatement':
            states = []
            fr = e.ex(s.from_)
            for k in (0, 1):
                s2 = st.copy()
                try: e.assume(s2, eq(fr.tag if isinstance(fr, SEnum) else fr.v, k))
                except Infeasible: continue
                s2.ghost['from'] = k
                states.append(s2)
            s.frm = models.sv(e, st, e.payload(fr, 1, 0)); s.ht = t
        else: states = [st]
        out = []
        for s2 in states:
            tok0 = dict(s2.tok)
            def cont(e, s3, v, tok0=tok0):
                s.hookpost(e, s3, v, n, t, tok0); return []
            c = models.C({}, [f, Agg(None, [tv])], [], rty)
            _, fn, a = models.inline(e, s2, c, fn, c.vals)
            out += e.push(s2, fn, a, None, cont)
        return out
    def evs(s, st, *k): return [x for x in st.ev[st.ghost['base']:] if x.kind in k]
    def text_(s, e, st, name, a, b): e.oblige(st, name, eq(a, b))
    def hookpost(s, e, st, v, n, t, tok0):
        v = e.ex(v)
        if not isinstance(v, Enum): raise Unsupported('result of unknown shape')
        st.ghost['ok'] = v.v == 0
        getattr(s, 'post_' + n)(e, st, v, t)
        g = e.addr('g_frame', 0, 0)
        for l in TOK: e.oblige(st, '%s: existing tokens are unchanged (%s)' % (n, l), eq(e.hread(st, l, g), e._hread(None, l, tok0[l], g)), 'frame')
        if n != 'Error' and not (n == 'ImportStatement' and [x for x in s.evs(st, 'import') if not x.case[0]]): s.noerrs(e, st, n)
        if n not in ('AdextopaScope', 'ImportStatement'): e.oblige(st, '%s: no matcher is renamed' % n, not s.evs(st, 'name'))
        if n != 'PatternScope': e.oblige(st, '%s: no pattern is added' % n, not s.evs(st, 'add'))
        if n not in ('AssignmentExpression', 'ImportStatement'): e.oblige(st, '%s: no name is bound' % n, not s.evs(st, 'set'))
    def noerrs(s, e, st, n):
        a, b = st.ghost['errs0'], e.ex(st.loc[s.el])
        e.oblige(st, '%s: no error is recorded' % n, And(eq(a.len, b.len), *[x == y for x, y in zip(a.arrs, b.arrs)]))
    def appended(s, e, st, name, old, new, msg, rng):
        """new is old with one error at its end"""
        i = z3.Int('i_err'); e.keep.append(i)
        e.oblige(st, name + ': one error more', eq(new.len, simp(ival(old.len) + 1)))
        for a, b in zip(old.arrs, new.arrs): e.oblige(st, name + ': earlier errors stay', Implies(And(i >= 0, i < ival(old.len)), eq(e.sel(st, b, i), e.sel(st, a, i))))
        s.iserr(e, st, name, e.elem(st, new, old.len), msg, rng)
    def iserr(s, e, st, name, x, msg, rng):
        x = e.ex(x)
        if msg is not None: e.oblige(st, name + ': its message', eq(models.sv(e, st, x.fs[0]), msg))
        if rng == 'any': return
        r = e.ex(x.fs[1])
        some = eq(r.v if isinstance(r, Enum) else r.tag, 0 if rng is None else 1)
        e.oblige(st, name + ': its range', some)
        if rng is not None and some is not False:
            q = e.ex(r.fs[0] if isinstance(r, Enum) else e.payload(r, 1, 0))
            e.oblige(st, name + ': its range', And(eq(e.ex(q.fs[0]), rng[0]), eq(e.ex(q.fs[1]), rng[1])))
    def rng(s, e, st, t): return (e.hread(st, 'ms', t), e.hread(st, 'me', t))
    def ok_(s, e, st, v, name): e.oblige(st, name, v.v == 0)

    def pre_Error(s, e, st, t):
        m = e.S.lit('__message')
        e.assume(st, z3.Select(e.hread(st, 'ahas', t), m))
    def post_Error(s, e, st, v, t):
        s.ok_(e, st, v, 'an error token does not end the visit')
        m = e.S.lit('__message')
        s.appended(e, st, 'an error token is recorded', st.ghost['errs0'], e.ex(st.loc[s.el]), e.sel(st, e.hread(st, 'aval', t), m), s.rng(e, st, t))

    def pre_AdextopaScope(s, e, st, t):
        s.ah = e.hread(st, 'ahas', t); s.av = e.hread(st, 'aval', t); s.nix = models.enumidx(s.ah, e.S.lit('name')); e.keep.append(s.nix)
        models.enumfacts(e, s.ah)
        st.ghost['nset'] = z3.IntVal(0); st.ghost['nval'] = EMPTY
    def named(s, e, st, i):
        n = e.S.lit('name'); ok = And(z3.Select(s.ah, n), s.nix < ival(i)) if i is not None else z3.Select(s.ah, n)
        return And(st.ghost['nset'] == z3.If(bval(ok), 1, 0), Implies(ok, st.ghost['nval'] == z3.Select(s.av, n)))
    def post_AdextopaScope(s, e, st, v, t):
        s.ok_(e, st, v, 'a scope token does not end the visit')
        e.oblige(st, 'the script takes the name its scope gives it, once', s.named(e, st, None))

    def pre_AssignmentExpression(s, e, st, t): e.assume(st, ival(s.nkids(e, st, t)) >= 2)
    def post_AssignmentExpression(s, e, st, v, t):
        k0, k1 = s.child(e, st, t, 0), s.child(e, st, t, 1)
        name = models.tok_value(e, st, k0); val = models.tok_value(e, st, k1)
        sets = s.evs(st, 'set'); new = s.evs(st, 'new')
        for x in sets: e.oblige(st, "an assignment binds in the script's scope", eq(x.scope, s.X))
        if s.is_(e, st, s.isname(e, st, k1, 'Identifier')):
            s.ok_(e, st, v, 'an alias is no error')
            e.oblige(st, 'an alias binds one name', len(sets) == 1)
            e.oblige(st, 'an alias is one reference', len(new) == 1 and new[0].case[0] == 'RefPattern')
            if len(sets) == 1 and len(new) == 1 and new[0].case[0] == 'RefPattern':
                s.text_(e, st, 'the reference is to the name on the right', models.sv(e, st, new[0].case[2][0]), val)
                s.bound(e, st, sets[0], name, new[0].m)
        elif s.is_(e, st, s.isname(e, st, k1, 'PatternDefinition')):
            e.oblige(st, 'an assignment makes no matcher itself', not new)
            if s.is_(e, st, dok(k1, name)):
                s.ok_(e, st, v, 'a usable definition is no error')
                e.oblige(st, 'a definition binds one name', len(sets) == 1)
                if len(sets) == 1: s.bound(e, st, sets[0], name, dm(k1, name))
            else:
                e.oblige(st, 'an unusable definition is an error', v.v == 1)
                e.oblige(st, 'an unusable definition binds nothing', not sets)
                if v.v == 1: s.iserr(e, st, 'an unusable definition', v.fs[0], e.S.cat(e.S.lit(PREFIX), derr(k1, name)), None)
        else:
            s.ok_(e, st, v, 'another assignment is no error')
            e.oblige(st, 'nothing else is bound', not sets and not new)
    def bound(s, e, st, x, name, m):
        n, val = x.case; val = e.ex(val)
        s.text_(e, st, 'the name bound is exactly the assigned one', n, name)
        ok = isinstance(val, Enum) and e.T[val.ty]['variants'][val.v]['name'] == 'Matcher'
        e.oblige(st, 'what is bound is a matcher', ok)
        if ok: e.oblige(st, 'what is bound is the matcher built', eq(e.ex(val.fs[0]).a, m))

    # every definition in a scope becomes a pattern, in order
    def pre_PatternScope(s, e, st, t):
        s.pt = t; s.pn = ival(s.nkids(e, st, t))
        st.ghost['pn'] = z3.IntVal(0)
        e.fact(cnt(z3.IntVal(0)) == 0)
        st.ghost['parr'] = z3.Const('parr0', z3.ArraySort(I, I))
    def isdef(s, e, st, i):
        x = z3.Select(e.hread(st, 'carr', s.pt), i) if not isinstance(i, int) else s.child(e, st, s.pt, i)
        e.keep.append(x)
        if e.frng(x) is None: e.setrng(x, 0, 0)
        return Or(s.isname(e, st, x, 'PatternDefinition'), s.isname(e, st, x, 'PatternDefinitionCaptured')), x
    def cnt1(s, e, st, k):
        k = ival(k); key = ('cnt', k.get_id())
        if key not in e.opq:
            e.opq[key] = k; e.keep.append(k)
            d, x = s.isdef(e, st, k)
            e.fact(cnt(k + 1) == cnt(k) + z3.If(bval(d), 1, 0))
        return cnt(k)
    def pat_inv(s, e, st, i):
        d, x = s.isdef(e, st, s.g)
        s.cnt1(e, st, s.g); s.cnt1(e, st, i)
        return And(eq(st.ghost['pn'], cnt(ival(i))), Implies(And(s.g >= 0, s.g < ival(i)), And(cnt(s.g) >= 0, cnt(s.g + 1) <= cnt(ival(i)), Implies(d, And(bok(x), z3.Select(st.ghost['parr'], cnt(s.g)) == bm(x))))))
    def post_PatternScope(s, e, st, v, t):
        e.oblige(st, 'a scope makes no matcher itself', not s.evs(st, 'new'))
        if v.v == 0:
            e.oblige(st, 'as many patterns are added as there are definitions', eq(st.ghost['pn'], cnt(s.pn)))
            d, x = s.isdef(e, st, s.g)
            e.oblige(st, 'the patterns are the definitions, in order', Implies(And(s.g >= 0, s.g < s.pn, d), And(bok(x), z3.Select(st.ghost['parr'], cnt(s.g)) == bm(x))))
        else:
            b = s.evs(st, 'build')
            e.oblige(st, 'it fails only when a definition does', len(b) >= 1 and b[-1].case[0] is False)
            if b:
                s.iserr(e, st, 'an unusable pattern', v.fs[0], e.S.cat(e.S.lit(PREFIX), berr(b[-1].m)), None)
                i = z3.Int('i_among')
                e.oblige(st, 'the failing definition is in the scope', z3.Exists([i], z3.And(i >= 0, i < s.pn, z3.Select(e.hread(st, 'carr', t), i) == b[-1].m)))

    # imports
    def pre_ImportStatement(s, e, st, t):
        s.ids = models.fcget(t, e.S.lit('ImportIdentifiers')); s.in_ = None
    def ident(s, e, st, x):
        n = models.fcget(x, e.S.lit('ImportName')); a = models.fcget(x, e.S.lit('ImportAsName'))
        idt = models.tok_value(e, st, n)
        return n, idt, simp(If(models.fchas(x, e.S.lit('ImportAsName')), models.tok_value(e, st, a), idt))
    def post_ImportStatement(s, e, st, v, t):
        imp = s.evs(st, 'import')
        if st.ghost['from'] == 0:
            e.oblige(st, 'an import outside a file is an error', v.v == 1)
            if v.v == 1: s.iserr(e, st, 'an import outside a file', v.fs[0], None, s.rng(e, st, t))
            e.oblige(st, 'an import outside a file does nothing', not imp and not s.evs(st, 'set', 'new', 'name'))
            return
        lost = [x for x in s.evs(st, 'locate') if not x.case[0]]
        if lost:
            e.oblige(st, 'an import that does not exist is an error', v.v == 1)
            if v.v == 1: e.oblige(st, 'the error of an import that does not exist has a message', Not(eq(models.sv(e, st, e.ex(v.fs[0]).fs[0]), EMPTY)))
            e.oblige(st, 'it is the file imported that does not exist', eq(lost[-1].case[1], s.file(e, st).arg(0)))
            e.oblige(st, 'an import that does not exist does nothing', not imp and not s.evs(st, 'set', 'new', 'name'))
            return
        e.oblige(st, 'the file is compiled once', len(imp) == 1)
        if not imp: return
        okk, f = imp[0].case
        if not okk:
            e.oblige(st, 'an import that does not compile is an error', v.v == 1)
            if v.v == 1: s.iserr(e, st, 'an import that does not compile', v.fs[0], EMPTY, 'any')
            e.oblige(st, 'an import that does not compile binds nothing', not s.evs(st, 'set', 'name'))
            s.import_errs(e, st)
            return
        if v.v == 0: e.oblige(st, 'every name imported is bound', eq(st.ghost['pn'], s.nkids(e, st, s.ids)))
        else:
            x = s.child(e, st, s.ids, simp(st.ghost['pn']))
            n, idt, as_ = s.ident(e, st, x)
            e.oblige(st, 'the import fails at one of the names', ival(st.ghost['pn']) < ival(s.nkids(e, st, s.ids)))
            s.iserr(e, st, 'a name that cannot be imported', v.fs[0], None, s.rng(e, st, n))
            if s.is_(e, st, eq(idt, e.S.lit('_'))): e.oblige(st, 'the root can be imported under a name', eq(as_, e.S.lit('_')))
            else:
                g = [x for x in st.ev[st.ghost['base']:] if x.kind == 'get']
                e.oblige(st, 'it fails only where the imported script has no matcher of that name', len(g) >= 1 and And(eq(g[-1].case[0], idt), Not(g[-1].case[1]) if isz(g[-1].case[1]) else not g[-1].case[1]))
    def import_errs(s, e, st):
        a, b = st.ghost['errs0'], e.ex(st.loc[s.el])
        w = e.ex(SymV(a.ty, 'import_errors', 0, 0)); i = z3.Int('i_err'); e.keep.append(i)
        e.oblige(st, 'its errors are recorded', eq(b.len, simp(ival(a.len) + ival(w.len))))
        for x, y, z in zip(a.arrs, b.arrs, w.arrs):
            e.oblige(st, 'its errors are recorded behind the earlier ones', And(Implies(And(i >= 0, i < ival(a.len)), e.sel(st, y, i) == e.sel(st, x, i)), Implies(And(i >= 0, i < ival(w.len)), e.sel(st, y, simp(ival(a.len) + i)) == e.sel(st, z, i))))
    def scope_call(s, e, st, c, name):
        if name == 'get' and st.ghost.get('hook') == 'ImportStatement':
            v = models.der(e, st, c.vals[0])
            e.oblige(st, "an imported name is looked up in the imported script's scope", eq(v.a, cs(s.evs(st, 'import')[-1].case[1])), 'pre')
            n = models.sv(e, st, c.vals[1]); out = []
            rs = super().scope_call(e, st, c, name)
            for s2, r in rs:
                r = e.ex(r); p = e.ex(e.payload(r, 1, 0) if not isinstance(r, Enum) else r.fs[0])
                mi = [q['name'] for q in e.T[p.ty]['variants']].index('Matcher')
                s2.ev = s2.ev + (Ev(kind='get', case=(n, And(eq(r.tag, 1), eq(p.tag, mi))), m=e.ex(e.payload(p, mi, 0)).a),)
                out.append((s2, r))
            return out
        r = super().scope_call(e, st, c, name)
        if name == 'set' and st.ghost.get('hook') == 'ImportStatement': s.imported(e, st, st.ev[-1])
        return r
    def imported(s, e, st, ev):
        f = s.evs(st, 'import')[-1].case[1]
        e.oblige(st, 'fewer names are bound than imported', ival(st.ghost['pn']) < ival(s.nkids(e, st, s.ids)), 'pre')
        x = s.child(e, st, s.ids, simp(st.ghost['pn'])); n, idt, as_ = s.ident(e, st, x)
        e.oblige(st, "an import binds in the script's scope", eq(ev.scope, s.X))
        if s.is_(e, st, eq(idt, e.S.lit('_'))):
            e.oblige(st, 'the root cannot be bound without a name', Not(eq(as_, e.S.lit('_'))))
            s.bound(e, st, ev, as_, cm(f))
            nm = s.last(st, 'name')
            e.oblige(st, 'the root takes the name it is imported as', len(nm) == 1 and And(eq(nm[0].m, cm(f)), eq(nm[0].case[0], as_)))
        else:
            nw = s.last(st, 'new'); g = s.last(st, 'get')
            e.oblige(st, 'an imported matcher is renamed and given its scope', [y.case[0] for y in nw] == ['MapPattern', 'SetScopePattern'])
            if [y.case[0] for y in nw] == ['MapPattern', 'SetScopePattern'] and len(g) == 1:
                e.oblige(st, 'the matcher imported is the one of that name', And(eq(g[0].case[0], idt), g[0].case[1], eq(nw[0].case[2][0].a, g[0].m)))
                s.bound(e, st, ev, as_, nw[1].m)
                a = [y for y in nw[1].case[2] if isinstance(y, (RcV, ScopeV))]
                e.oblige(st, "it runs in the imported script's scope", len(a) == 2 and And(eq(a[0].a, cs(f)), eq(a[1].a, nw[0].m)))
                s.renamer(e, st, nw[0].case[2][1], as_)
        st.ghost['pn'] = simp(ival(st.ghost['pn']) + 1)
    def last(s, st, kind):
        """events of that kind since the loop was entered or the last name was bound"""
        out = []
        for x in reversed(st.ev[:-1] if st.ev and st.ev[-1].kind == 'set' else st.ev):
            if x.kind in ('loop', 'set', 'import'): break
            if x.kind == kind: out.insert(0, x)
        return out
    def renamer(s, e, st, f, name):
        """the closure renames the token to the imported name and returns it"""
        f = e.ex(f)
        if not (isinstance(f, Agg) and e.T[f.ty]['k'] == 'closure'): raise Unsupported('rename function that is no closure')
        fn = e.p.by.get(e.T[f.ty]['inst'])
        st2 = st.copy(); ins = [e.ex(SymV(fn.locals[i], 'ren%d' % i, 0, 0)) for i in range(2, fn.argc + 1)]
        t = ins[0].a; tok0 = dict(st2.tok); n0 = len(st2.ev)
        def cont(e, s3, v):
            r = e.ex(v)
            if isinstance(r, Enum) and r.v == 0: r = e.ex(r.fs[0])
            ok = isinstance(r, Enum) and e.T[r.ty]['variants'][r.v]['name'] == 'Token'
            e.oblige(s3, 'an imported matcher returns its token', ok)
            if ok: e.oblige(s3, 'an imported matcher returns its token', eq(e.ex(r.fs[0]).a, t))
            e.oblige(s3, 'the token takes the imported name', eq(e.hread(s3, 'name', t), name))
            g = e.addr('g_frame', 0, 0)
            for l in TOK:
                e.oblige(s3, 'no other token changes (%s)' % l, Implies(Not(eq(g, t)), eq(e.hread(s3, l, g), e._hread(None, l, tok0[l], g))), 'frame')
                if l != 'name': e.oblige(s3, 'nothing else of the token changes (%s)' % l, eq(e.hread(s3, l, t), e._hread(None, l, tok0[l], t)), 'frame')
            e.oblige(s3, 'nothing else is done', len(s3.ev) == n0)
            return []
        rty = fn.locals[0]
        c = models.C({}, [f, Agg(None, ins)], [], rty)
        _, fn, a = models.inline(e, st2, c, fn, c.vals)
        e.run(e.push(st2, fn, a, None, cont))
    def on_matcher(s, e, st, c, m):
        r = super().on_matcher(e, st, c, m)
        if c.name == 'set_name' and st.ghost.get('hook') == 'AdextopaScope':
            e.oblige(st, 'it is the script that takes the name', eq(m.a, s.R))
            st.ghost['nset'] = z3.simplify(ival(st.ghost['nset']) + 1); st.ghost['nval'] = models.sv(e, st, c.vals[1])
        return r
    def added(s, e, st, m, p):
        if st.ghost.get('hook') == 'PatternScope':
            e.oblige(st, 'patterns are added to the scoped matcher', eq(m, s.S))
            st.ghost['parr'] = z3.Store(st.ghost['parr'], ival(st.ghost['pn']), p)
            st.ghost['pn'] = simp(ival(st.ghost['pn']) + 1)

    def loop_cands(s, e, entry, hd, head, W, M):
        h = hd.ghost.get('hook'); out = []
        for p, it in iters(W, hd):
            if h == 'PatternScope': out.append((('definitions so far', p), lambda st, p=p: s.pat_inv(e, st, W.get(st, p).i)))
            elif h == 'AdextopaScope': out.append((('named so far', p), lambda st, p=p: s.named(e, st, W.get(st, p).i)))
            elif h == 'ImportStatement':
                out.append((('names so far', p), lambda st, p=p: eq(st.ghost['pn'], W.get(st, p).i)))
                out.append((('errors so far', p), lambda st, p=p: s.errs_so_far(e, st, W.get(st, p).i)))
        return out
    def errs_so_far(s, e, st, i):
        a, b = st.ghost['errs0'], e.ex(st.loc[s.el])
        w = e.ex(SymV(a.ty, 'import_errors', 0, 0)); j = z3.Int('i_err')
        return And(eq(b.len, simp(ival(a.len) + ival(i))), *[And(Implies(And(j >= 0, j < ival(a.len)), e.sel(st, y, j) == e.sel(st, x, j)), Implies(And(j >= 0, j < ival(i)), e.sel(st, y, simp(ival(a.len) + j)) == e.sel(st, z, j))) for x, y, z in zip(a.arrs, b.arrs, w.arrs)])

    # ---- the whole
    def post(s, e, st, v):
        v = e.ex(v)
        if not isinstance(v, Enum): raise Unsupported('result of unknown shape')
        if s.is_(e, st, Not(s.isname(e, st, s.root, 'Script'))):
            e.oblige(st, 'a tree that is no script is an error', v.v == 1)
            e.oblige(st, 'nothing is built from a tree that is no script', not st.ev)
            return
        e.oblige(st, 'a script is visited', st.ghost['visit'] is not None)
        if st.ghost['visit'] is None: return
        new = {}
        for x in s.new(st): new.setdefault(x.case[0], []).append(x)
        R, S = [next(x for x in new['ProgramPattern'] if x.m.eq(m)) for m in (s.R, s.S)]
        e.oblige(st, 'exactly the expected matchers are made', sorted(x.case[0] for x in s.new(st)) == ['ProgramPattern', 'ProgramPattern', 'ProxyChildrenPattern', 'ScopeContext', 'SetScopePattern'])
        cont = lambda a: (lambda q: isinstance(q, Enum) and e.T[q.ty]['variants'][q.v]['name'] == 'Continue')(e.ex(a[-1]))
        e.oblige(st, 'the script is a program of the given name', And(cont(R.case[2]), eq(models.sv(e, st, R.case[2][1]), s.nm)))
        e.oblige(st, 'its patterns run in order', cont(S.case[2]))
        for x in (R, S): e.oblige(st, 'no pattern is there before the visit', eq(models.seqlen(e, st, x.case[2][0]), 0))
        add = [x for x in st.ev if x.kind == 'add']
        e.oblige(st, 'one pattern is added outside the visit', len(add) == 1)
        if len(add) == 1 and len(new.get('SetScopePattern', [])) == 1 and len(new.get('ProxyChildrenPattern', [])) == 1:
            X, Y = new['SetScopePattern'][0], new['ProxyChildrenPattern'][0]
            e.oblige(st, "the script's pattern sets its scope", And(eq(add[0].m, s.R), eq(add[0].case[0], X.m)))
            a = [y for y in X.case[2] if isinstance(y, (RcV, ScopeV))]
            e.oblige(st, "the scope set is the script's own", len(a) == 2 and And(eq(a[0].a, s.X), eq(a[1].a, Y.m)))
            e.oblige(st, 'the patterns of the script are spliced', eq(Y.case[2][0].a, s.S))
        e.oblige(st, 'no name is bound outside the visit', not [x for x in st.ev if x.kind in ('set', 'name')])
        err = st.ghost.get('verr')
        if err is None:
            old = e.ex(SymV(s.lty, 'collected', 0, 0))
            if not s.is_(e, st, eq(old.len, 0)):
                e.oblige(st, 'a script that holds an error token is an error', v.v == 1)
                if v.v == 1:
                    nw = e.ex(v.fs[0])
                    e.oblige(st, 'the errors are those recorded', And(eq(old.len, nw.len), *[x == y for x, y in zip(old.arrs, nw.arrs)]))
                return
            e.oblige(st, 'a visit without error gives a matcher', v.v == 0)
            if v.v == 0:
                p = e.ex(v.fs[0]); e.oblige(st, "the result is the script and its scope", And(eq(e.ex(p.fs[0]).a, s.R), eq(e.ex(p.fs[1]).a, s.X)))
            return
        e.oblige(st, 'an error in the visit is an error', v.v == 1)
        if v.v != 1: return
        old = e.ex(SymV(e.ex(v.fs[0]).ty, 'collected', 0, 0)); nw = e.ex(v.fs[0])
        msg = models.sv(e, st, err.fs[0]); r = e.ex(err.fs[1])
        if s.is_(e, st, eq(msg, EMPTY)):
            e.oblige(st, 'the errors are those recorded', And(eq(old.len, nw.len), *[x == y for x, y in zip(old.arrs, nw.arrs)]))
        else:
            q = e.ex(e.payload(r, 1, 0)) if not isinstance(r, Enum) else (e.ex(r.fs[0]) if r.v else None)
            some = eq(r.tag if not isinstance(r, Enum) else r.v, 1)
            if s.is_(e, st, some): lo, hi = e.ex(q.fs[0]), e.ex(q.fs[1])
            else: lo, hi = 0, 0
            par = s.cget(e, s.cellval(e, st, s.ctx), 'parser').a
            s.appended(e, st, 'the error that ended the visit', old, nw, models.errstr(par, msg, ival(lo), ival(hi)), (lo, hi))


pnew = z3.Function('parser_of', Str, I); pnewf = z3.Function('parser_of_file', Str, I)
cok0 = z3.Function('script_compiles', I, Str, B, Str, B)
bok0 = z3.Function('script_builds', I, Str, B, Str, B)


class CompileScript(ScriptFn):
    """parse with the grammar, build from the tree; every failure comes back as errors"""
    id = 'C17'; path = P + 'compile_script'
    def on_panic(s, e, st, msg):
        # building the grammar compiles its regular expressions
        if not [x for x in st.ev if x.kind == 'tokenize'] and 'unwrap' in str(msg): return
        return super().on_panic(e, st, msg)
    def setup(s, e, st, args):
        s.notes.append('the regular expressions of the grammar are literals; that they are valid is not decided here (building the grammar would panic)')
        s.args = args; s.parser = e.ex(args[0]).a; s.nm = models.sv(e, st, args[1]); s.from_ = e.ex(args[2])
        s.notes.append('that the grammar Script! builds is the right one is not part of this contract (see the replay family and C21)')
        s.notes.append('log_errors_to_stdout only prints')
    def callee(s, e, st, c):
        rp = c.rp
        if rp == 'parser_context::ParserContext::new':
            p = models.der(e, st, c.vals[0])
            a = e.alloc(st)
            st.ev = st.ev + (Ev(kind='context', m=a, case=(p.a, models.sv(e, st, c.vals[1]))),)
            return RcV(a, e.T[c.dty]['args'][0])
        if rp == 'parser_context::ParserContext::register_matchers':
            st.ev = st.ev + (Ev(kind='register', case=(models.der(e, st, c.vals[1]),)),)
            return Agg(c.dty, [])
        if rp == 'parser_context::ParserContext::tokenize': return s.split(e, st, c, 'tokenize', (e.ex(c.vals[0]).a, e.ex(c.vals[1]).a))
        if rp == P + 'build_matcher_from_tokens':
            return s.split(e, st, c, 'buildscript', (e.ex(c.vals[0]).a, e.ex(c.vals[1]).a, models.sv(e, st, c.vals[2]), e.ex(c.vals[3]), e.ex(c.vals[4])))
        if rp == P + 'log_errors_to_stdout': return Agg(c.dty, [])
    def split(s, e, st, c, kind, case):
        out = []
        for i in (0, 1):
            s2 = st.copy(); r = e.ex(SymV(c.dty, kind, 0, st.epoch)); e.assume(s2, r.tag == i)
            x = e.ex(e.payload(r, i, 0)); v = Enum(c.dty, i, [x])
            s2.ev = s2.ev + (Ev(kind=kind, case=case, res=v),)
            out.append((s2, v))
        return out
    def same_opt(s, e, st, name, a, b):
        a, b = e.ex(a), e.ex(b)
        e.oblige(st, name, e.eqv(st, a, b))
    def post(s, e, st, v):
        v = e.ex(v)
        if not isinstance(v, Enum): raise Unsupported('result of unknown shape')
        k = {x: [y for y in st.ev if y.kind == x] for x in ('context', 'register', 'tokenize', 'buildscript')}
        e.oblige(st, 'the source is parsed once', len(k['tokenize']) == 1 and len(k['context']) == 1)
        if len(k['tokenize']) != 1 or len(k['context']) != 1: return
        c, t = k['context'][0], k['tokenize'][0]
        e.oblige(st, 'the context reads the given source', eq(c.case[0], s.parser))
        e.oblige(st, 'the context has the given name', eq(c.case[1], s.nm))
        e.oblige(st, 'what is parsed is that context', eq(t.case[0], c.m))
        e.oblige(st, 'the matchers the grammar refers to are registered first', len(k['register']) == 1 and st.ev.index(k['register'][0]) < st.ev.index(t))
        if t.res.v == 0:
            b = k['buildscript']
            e.oblige(st, 'the tree is turned into a matcher, once', len(b) == 1)
            if len(b) != 1: return
            b = b[0]; tk, cx, n, f, fl = b.case
            e.oblige(st, 'it is the tree that was parsed', eq(tk, e.ex(t.res.fs[0]).a))
            e.oblige(st, 'it is built with the context it was parsed with', eq(cx, c.m))
            s.text_(e, st, 'it gets the given name', n, s.nm)
            s.same_opt(e, st, 'imports are relative to the given file', f, s.from_)
            s.same_opt(e, st, 'the flags are passed on', fl, s.args[3])
            e.oblige(st, 'it compiles exactly when the tree can be built', v.v == b.res.v)
            if v.v != b.res.v: return
            if v.v == 0:
                x, y = e.ex(v.fs[0]), e.ex(b.res.fs[0])
                e.oblige(st, 'the result is the context, the matcher and its scope', And(eq(e.ex(x.fs[0]).a, c.m), eq(e.ex(x.fs[1]).a, e.ex(y.fs[0]).a), eq(e.ex(x.fs[2]).a, e.ex(y.fs[1]).a)))
            else: s.same_errs(e, st, 'the errors are those of the builder', v.fs[0], b.res.fs[0])
        else:
            e.oblige(st, 'nothing is built from a script that does not parse', not k['buildscript'])
            e.oblige(st, 'a script that does not parse is an error', v.v == 1)
            if v.v != 1: return
            w = e.ex(v.fs[0])
            e.oblige(st, 'it is one error', eq(w.len, 1))
            f = e.ex(t.res.fs[0]); n = e.T[f.ty]['variants']
            tag = f.v if isinstance(f, Enum) else f.tag
            ei = [q['name'] for q in n].index('Error')
            if s.is_(e, st, eq(tag, ei)):
                x = e.ex(e.payload(f, ei, 0) if not isinstance(f, Enum) else f.fs[0])
                e.oblige(st, 'the error is the one the parse ended with', e.eqv(st, e.ex(e.elem(st, w, 0)), x))
    def same_errs(s, e, st, name, a, b):
        a, b = e.ex(a), e.ex(b)
        e.oblige(st, name, And(eq(a.len, b.len), *[x == y for x, y in zip(a.arrs, b.arrs)]))
    def text_(s, e, st, name, a, b): e.oblige(st, name, eq(a, b))


class FromStr(CompileScript):
    """the callers: a source text, or the text of a file"""
    path = P + 'compile_script_from_str'
    internal = False
    on_panic = ScriptFn.on_panic
    def setup(s, e, st, args): s.args = args
    def callee(s, e, st, c):
        rp = c.rp
        if rp.startswith('parser::Parser::new'):
            a = e.alloc(st); n = rp.rsplit('::', 1)[1]; x = models.sv(e, st, c.vals[0])
            if n == 'new_from_file':
                def made(s2):
                    s2.ev = s2.ev + (Ev(kind='parser', m=a, case=(n, x)),)
                    return RcV(a, e.T[e.T[c.dty]['args'][0]]['args'][0])
                return s.io(e, st, c, 'read', fhas(x), x, made)
            st.ev = st.ev + (Ev(kind='parser', m=a, case=(n, x)),)
            return RcV(a, e.T[c.dty]['args'][0])
        if rp == P + 'compile_script':
            return s.split(e, st, c, 'compile', (e.ex(c.vals[0]).a, models.sv(e, st, c.vals[1]), e.ex(c.vals[2]), e.ex(c.vals[3])))
        if rp in (FromFileInternal.path, FromFile.path, FromStr.path) and rp != s.path: return None       # one through the other: inlined
        return BuildScript.callee(s, e, st, c)
    path_ = BuildScript.path_; io = BuildScript.io
    def want(s, e, st): return 'new', models.sv(e, st, s.args[0]), models.sv(e, st, s.args[1]), None
    def post(s, e, st, v):
        v = e.ex(v)
        if not isinstance(v, Enum): raise Unsupported('result of unknown shape')
        p = [x for x in st.ev if x.kind == 'parser']; k = [x for x in st.ev if x.kind == 'compile']
        lost = [x for x in st.ev if x.kind in ('locate', 'read') and not x.case[0]]
        if lost:
            f = models.sv(e, st, s.args[0])
            e.oblige(st, 'a file that cannot be read is an error', v.v == 1)
            e.oblige(st, 'it is the given file that cannot be read', eq(lost[-1].case[1], f if lost[-1].kind == 'locate' else pcan(f)))
            if v.v == 1: e.oblige(st, 'the file that cannot be read is reported', ival(e.ex(v.fs[0]).len) >= 1)
            return
        e.oblige(st, 'one source is compiled, once', len(p) == 1 and len(k) == 1)
        if len(p) != 1 or len(k) != 1: return
        kind, src, name, frm = s.want(e, st)
        e.oblige(st, 'the source is the given one', And(p[0].case[0] == kind, eq(p[0].case[1], src)))
        a, n, f, fl = k[0].case
        e.oblige(st, 'it is the source that is compiled', eq(a, p[0].m))
        e.oblige(st, 'the script has the given name', eq(n, name))
        f = e.ex(f); tag = f.v if isinstance(f, Enum) else f.tag
        if frm is None: e.oblige(st, 'a script that is no file can import nothing', eq(tag, 0))
        else:
            e.oblige(st, 'imports are relative to the file', eq(tag, 1))
            if isinstance(f, Enum) and f.v == 1: e.oblige(st, 'imports are relative to the file', eq(models.sv(e, st, f.fs[0]), frm))
        s.same_opt(e, st, 'the flags are passed on', fl, s.args[-1])
        r = k[0].res
        e.oblige(st, 'it compiles exactly when the script does', v.v == r.v)
        if v.v != r.v: return
        if v.v == 1: s.same_errs(e, st, 'the errors are those of the script', v.fs[0], r.fs[0]); return
        x, y = e.ex(v.fs[0]), e.ex(r.fs[0])
        if s.internal: e.oblige(st, 'the result is that of the script', And(*[eq(e.ex(x.fs[i]).a, e.ex(y.fs[i]).a) for i in range(3)]))
        else: e.oblige(st, "the result is the script's matcher", eq(x.a, e.ex(y.fs[1]).a))


class FromFile(FromStr):
    path = P + 'compile_script_from_file'
    def want(s, e, st):
        f = models.sv(e, st, s.args[0]); full = pcan(f)
        return 'new_from_file', full, f, full


class FromFileInternal(FromFile):
    path = P + 'compile_script_from_file_internal'
    internal = True


class NewParser(FnContract):
    """a parser holds exactly the text it is given"""
    id = ('C12', 'C17'); path = 'parser::Parser::new'
    file = False; given = False
    def setup(s, e, st, args): s.args = args
    def cell(s, e, st, a, ty):
        if a.get_id() in st.cells: return None
        return super().cell(e, st, a, ty)
    def override2(s, e, st, c):
        if c.rp.startswith('std::fs::read_to_string'):
            f = models.sv(e, st, c.vals[0]); out = []
            for k in (0, 1):
                s2 = st.copy()
                try: e.assume(s2, fhas(f) if k == 0 else Not(fhas(f)))
                except Infeasible: continue
                out.append((s2, Enum(c.dty, k, [e.S.touch(fsrc(f)) if k == 0 else SymV(e.T[c.dty]['args'][1], 'io_error', 0, st.epoch)])))
            return out
    def post(s, e, st, v):
        v = e.ex(v)
        src = models.sv(e, st, s.args[0]); name = EMPTY
        if s.given: name = models.sv(e, st, s.args[1])
        if s.file:
            name = src
            if not isinstance(v, Enum): raise Unsupported('result of unknown shape')
            e.oblige(st, 'a parser is made exactly when the file can be read', eq(v.v == 0, fhas(src)))
            if v.v == 1: return
            v = e.ex(v.fs[0]); src = fsrc(src)
        c = st.cells.get(v.a.get_id())
        e.oblige(st, 'the parser is a new one', c is not None)
        if c is None: return
        x = e.ex(c[1])
        for (n, t), y in zip(e.T[x.ty]['variants'][0]['fields'], x.fs):
            if n == 'source': e.oblige(st, 'the source is exactly the given text', eq(models.sv(e, st, y), src))
            elif n == 'filename': e.oblige(st, 'the file name is the given one', eq(models.sv(e, st, y), name))


class NewParserNamed(NewParser):
    path = 'parser::Parser::new_with_file_name'; given = True


class NewParserFile(NewParser):
    path = 'parser::Parser::new_from_file'; file = True


class GetSource(FnContract):
    id = 'C12'; path = 'parser::Parser::get_source'
    def setup(s, e, st, args): s.args = args
    def post(s, e, st, v):
        a = models.der(e, st, s.args[0])
        i = [n for n, t in e.T[a.ty]['variants'][0]['fields']].index('source')
        e.oblige(st, 'the source is the one of the parser', eq(models.sv(e, st, v), models.sv(e, st, a.fs[i])))


import re
ALL = [BuildScript, CompileScript, FromStr, FromFile, FromFileInternal, NewParser, NewParserNamed, NewParserFile, GetSource]
