"""Loops: cut at the head with an inductive invariant.  What a loop changes is discovered by running its body;
the invariant (equalities between changed leaves, bounds, contract supplied candidates) is inferred Houdini style
and then checked: it holds on entry and is preserved by every path through the body.  Nothing is unrolled except
iterations over literal ranges."""
import z3
from .vals import *
from .strs import Str
from . import core
from .core import I, B, TOK, isz, ival, bval, simp, And, Or, Not, If, eq, State

MAXU = 24
import os
DBG = os.environ.get('DVDBG')


class Shape(Exception):
    pass


def scalar_sort(v):
    if isinstance(v, bool): return B
    if isinstance(v, int): return I
    if isz(v): return v.sort()
    if isinstance(v, RcV): return ('rc', v.ty)
    return None


def term(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, RcV): return v.a
    if isinstance(v, Opq): return v.t
    return v


def fty(e, v, i):
    """type of field i of an aggregate"""
    if v.ty is None: return None
    t = e.T[v.ty]
    if isinstance(v, Enum):
        return t['variants'][v.v]['fields'][i][1] if t['k'] == 'adt' else None
    if t['k'] == 'tuple': return t['ts'][i] if i < len(t['ts']) else None
    if t['k'] == 'closure': return t['ups'][i]
    if t['k'] == 'array': return t['t']
    if t['k'] == 'adt' and t['kind'] == 'struct': return t['variants'][0]['fields'][i][1]
    return None


class Walk:
    """structural access to the leaves of a state, addressed by paths"""
    def __init__(s, e, depth, live):
        s.e = e; s.depth = depth; s.live = live

    def roots(s, st):
        for k in st.loc:
            d, l = k
            if d == s.depth and l not in s.live: continue
            fn = st.stack[d][0]
            yield ('loc', d, l), st.loc[k], fn.locals[l]
        for k in st.cells: yield ('cell', k), st.cells[k][1], st.cells[k][2]
        for k in st.tok: yield ('tok', k), st.tok[k], None
        for k in st.ghost: yield ('ghost', k), st.ghost[k], None

    def kids(s, v, ty):
        """[(step, child, type)] or None for a leaf"""
        e = s.e
        if isinstance(v, (Agg, Enum)): return [(('f', i), x, fty(e, v, i)) for i, x in enumerate(v.fs)]
        if isinstance(v, VecV): return [(('len',), v.len, 'usize')] + [(('arr', i), x, None) for i, x in enumerate(v.arrs)]
        if isinstance(v, MapV): return [(('has',), v.has, None)] + [(('val', i), x, None) for i, x in enumerate(v.arrs)]
        if isinstance(v, It): return [(('i',), v.i, 'usize'), (('n',), v.n, 'usize'), (('src',), v.src, None)]
        if isinstance(v, DynV): return [(('dyn',), v.val, v.cty)]
        if isinstance(v, Ref) and v.root[0] == 'V' and not v.path: return [(('v',), v.root[1], None)]
        if isinstance(v, SplitV): return [(('s',), v.s, None), (('sep',), v.sep, None)]
        if isinstance(v, tuple) and not (v and isinstance(v[0], str) and v[0] in ('pl', 'uninit')): return [(('t', i), x, None) for i, x in enumerate(v)]
        return None

    def rebuild(s, v, ch):
        if isinstance(v, Agg): return Agg(v.ty, ch)
        if isinstance(v, Enum): return Enum(v.ty, v.v, ch)
        if isinstance(v, VecV): return VecV(v.ty, v.et, ch[0], ch[1:])
        if isinstance(v, MapV): return MapV(v.ty, v.vt, ch[0], ch[1:])
        if isinstance(v, It): return It(v.ty, v.kind, ch[2], ch[0], ch[1], v.extra)
        if isinstance(v, DynV): return DynV(v.ty, v.cty, ch[0])
        if isinstance(v, Ref): return Ref(('V', ch[0]))
        if isinstance(v, SplitV): return SplitV(*ch)
        return tuple(ch)

    def get(s, st, path):
        r = path[0]
        if r[0] == 'loc': v = st.loc.get((r[1], r[2]))
        elif r[0] == 'cell': v = st.cells[r[1]][1]
        elif r[0] == 'tok': v = st.tok[r[1]]
        else: v = st.ghost[r[1]]
        for step in path[1:]:
            if type(v) is SymV: v = s.e.ex(v)
            ks = s.kids(v, None)
            if ks is None: raise Shape()
            for k, c, t in ks:
                if k == step: v = c; break
            else: raise Shape()
        if type(v) is SymV and s.e.scalar(s.e.strip(v.ty)): v = s.e.ex(v)
        return v

    # ---- differences between head and back
    def same(s, st, a, b):
        if a is b: return True
        e = s.e
        if type(a) is SymV and type(b) is SymV and a.name == b.name: return True
        sa, sb = scalar_sort(a), scalar_sort(b)
        if sa is not None and sb is not None:
            if isinstance(sa, tuple) != isinstance(sb, tuple): return False
            ta, tb = term(a), term(b)
            if ta.sort() != tb.sort(): return False
            if ta.eq(tb): return True
            if z3.is_array(ta): return arr_same(e, st, ta, tb)
            return e.entails(st, ta == tb)
        if isinstance(a, Opq) and isinstance(b, Opq): return a.t.eq(b.t)
        if isinstance(a, FnV) and isinstance(b, FnV): return a.ty == b.ty
        if isinstance(a, (TokV, SymMatcher)) and type(a) is type(b): return a.a.eq(b.a)
        if isinstance(a, Ref) and isinstance(b, Ref): return refeq(a, b)
        if isinstance(a, Fmt) and isinstance(b, Fmt): return False
        if isinstance(a, str) or isinstance(a, tuple) or a is None: return a == b if not isz(b) else False
        if isinstance(a, (SEnum, Enum)) and isinstance(b, (SEnum, Enum)):
            try: return e.entails(st, e.eqv(st, a, b))
            except Unsupported: return False
        try: return a == b and not isz(a) and not isz(b) and isinstance(a, (str, frozenset))
        except Exception: return False

    def diff(s, st, a, b, path, ty, out):
        """add to out the paths at which b differs from a"""
        if a is None: return
        if s.same(st, a, b): return
        if b is None: out[path] = ('poison', a, ty); return
        e = s.e
        if type(a) is SymV and type(b) is not SymV: a = e.ex(a)
        if type(b) is SymV and type(a) is not SymV: b = e.ex(b)
        if s.same(st, a, b): return
        if type(a) is SymV and type(b) is SymV:
            a = e.ex(a); b = e.ex(b)
            if type(a) is SymV or type(b) is SymV: out[path] = ('whole', a, ty if isinstance(ty, int) else a.ty); return
        ka, kb = s.kids(a, ty), s.kids(b, ty)
        if ka is not None and kb is not None and type(a) is type(b) and len(ka) == len(kb) and \
           not (isinstance(a, Enum) and a.v != b.v) and not (isinstance(a, It) and a.kind != b.kind) and \
           not (isinstance(a, DynV) and a.cty != b.cty):
            for (k, x, t), (_, y, _) in zip(ka, kb): s.diff(st, x, y, path + (k,), t, out)
            return
        if isinstance(a, Ref) or isinstance(b, Ref): out[path] = ('poison', a, ty); return
        if isinstance(a, (SEnum, Enum)): out[path] = ('whole', a, a.ty); return
        if scalar_sort(a) is not None or isinstance(a, Opq): out[path] = ('leaf', a, ty); return
        if ty is not None and isinstance(ty, int): out[path] = ('whole', a, ty); return
        out[path] = ('poison', a, ty)

    # ---- a state with the leaves in M replaced
    def subst(s, v, path, M, sym):
        if path in M: return sym(path, v, M[path])
        if not any(p[:len(path)] == path for p in M): return v
        if type(v) is SymV: v = s.e.ex(v)
        ks = s.kids(v, None)
        if ks is None: raise Unsupported('loop: changed part of %r' % (v,))
        return s.rebuild(v, [s.subst(c, path + (k,), M, sym) for k, c, t in ks])


def arr_same(e, st, a, b):
    if a.eq(b): return True
    a = z3.simplify(a); b = z3.simplify(b)
    if a.eq(b): return True
    return e.sol.check(st.pc, a != b) == z3.unsat


def refeq(a, b):
    if a.root[0] != b.root[0] or len(a.path) != len(b.path): return False
    for x, y in zip(a.root[1:], b.root[1:]):
        if isz(x) and isz(y):
            if not x.eq(y): return False
        elif isz(x) or isz(y): return False
        elif x is not y and x != y: return False
    for x, y in zip(a.path, b.path):
        if len(x) != len(y) or x[0] != y[0]: return False
        for p, q in zip(x[1:], y[1:]):
            if isz(p) and isz(q):
                if not p.eq(q): return False
            elif isz(p) or isz(q) or p != q: return False
    return True


def literal_iter(e, st, depth, fn, head, body, live):
    """the loop steps an iterator whose remaining length is a literal"""
    used = set()
    for b in body:
        for x in fn.blocks[b]['s']:
            if x[0] not in ('dead', 'intrinsic') and x[1][0] == 'ref' and not x[1][1][1] and x[1][2]: used.add(x[1][1][0])
    # loops of inner loops own their iterators: those are not live at this head
    c = []
    for l in used & live:
        v = st.loc.get((depth, l))
        if isinstance(v, It) and isinstance(v.i, int) and isinstance(v.n, int): c.append(v.n - v.i)
        elif isinstance(v, Agg) and v.ty is not None and e.T[v.ty].get('path') == 'core::ops::range::Range' and all(isinstance(x, int) for x in v.fs):
            c.append(v.fs[1] - v.fs[0])
    return c and min(c) <= MAXU


def analyse(e, st, depth, head, body):
    fn = st.stack[-1][0]
    live = fn.live()[head] | fn.addr_taken()
    for k in [k for k in st.loc if k[0] == depth and k[1] not in live]: del st.loc[k]
    if literal_iter(e, st, depth, fn, head, body, fn.live()[head]) or e.c.unroll(e, st, fn, head):
        n = st.ghost.get(('unroll', depth, head), 0)
        if n > MAXU + 2: raise Unsupported('literal loop too long')
        st.ghost[('unroll', depth, head)] = n + 1
        st.ctl = (depth, head)
        return [st]
    W = Walk(e, depth, live)
    key = (fn.key, head, depth, e.c.loopkey(e, st))
    uid = e.fresh_uid()
    M, classes, cands, hasev, dropped = None, None, None, False, set()
    seed = e.loopcache.get(key)
    st0 = st
    h = st0.epoch + 1
    entry = st0.copy()
    e.bump(entry)                       # everything that exists now lies below A(h)
    M = {}
    if seed:
        for p, (kind, ty) in seed['M'].items():
            try: v = W.get(entry, p)
            except (Shape, KeyError): continue
            if v is None: continue
            M[p] = (kind, v, ty)
        hasev = seed['ev']
    scopes_mod = set(seed['sc']) if seed else set()
    dropc = set(seed['drop']) if seed else set()
    split = dict(seed['split']) if seed else {}     # leaf path -> class label chosen so far
    for rnd in range(60):
        e.tick()
        M = prune(M)
        hd, syms = make_head(e, W, entry, M, uid, h, split, scopes_mod, hasev, depth, head)
        cl = candidates(e, W, entry, hd, M, syms, head, h)
        cl = [(n, f) for n, f in cl if n not in dropc]
        ok = []
        for n, f in cl:
            g = safe(f, entry)
            if g is None or not e.entails(entry, g):
                dropc.add(n)
                if DBG: print('dropinit', head, n, str(g)[:300])
            else: ok.append((n, f))
        for n, f in ok:
            g = safe(f, hd)
            if g is not None:
                try: e.assume(hd, g)
                except Infeasible: raise Unsupported('loop: contradictory invariant ' + str(n))
        run = hd.copy(); run.ctl = (depth, head)
        e.muted += 1
        try: backs, exits = e.run([run], (depth, head, body))
        finally: e.muted -= 1
        if DBG == '2':
            import time; print('round', rnd, 'head', head, fn.path[-30:], 'backs', len(backs), 'exits', len(exits), 'cands', len(ok), 'M', len(M), 'seed', bool(seed), '%.1f' % time.time(), flush=True)
        changed = False
        for b in backs:
            nd = {}
            for root, v, ty in list(W.roots(hd)):
                path = (root,)
                if root[0] == 'cell': bv = b.cells[root[1]][1] if root[1] in b.cells else None
                elif root[0] == 'loc': bv = b.loc.get((root[1], root[2]))
                elif root[0] == 'tok': bv = b.tok[root[1]]
                else: bv = b.ghost.get(root[1])
                if any(path == p for p in M): continue
                diffM(W, b, v, bv, path, ty, nd, M)
            for k in b.cells:
                if k not in hd.cells and not fresh_in(e, b.cells[k][0], h):
                    raise Unsupported('loop writes a cell it did not own')
            for p, x in nd.items():
                if p not in M: M[p] = x; changed = True
            for k, (a, ch) in b.scopes.items():
                if k in hd.scopes and hd.scopes[k][1] != ch and k not in scopes_mod:
                    if e.c.depth(ch) != e.c.depth(hd.scopes[k][1]): raise Unsupported('loop changes the scope depth')
                    scopes_mod.add(k); changed = True
                elif k in scopes_mod and k in hd.scopes and e.c.depth(ch) != e.c.depth(hd.scopes[k][1]): raise Unsupported('loop changes the scope depth')
                elif k not in hd.scopes and ch[0] != 'base' and k not in scopes_mod:
                    e.c.chain(e, entry, a); changed = True
                    scopes_mod.add(k)
            if len(b.ev) > len(hd.ev) and not hasev: hasev = True; changed = True
        if changed:
            continue
        # equality classes
        ch2 = False
        groups = {}
        for p, (cls, v) in syms.items(): groups.setdefault(cls, []).append(p)
        for cls, ps in groups.items():
            if len(ps) < 2: continue
            parts = [ps]
            for b in backs:
                np = []
                for part in parts:
                    sub = []
                    for p in part:
                        try: x = term(W.get(b, p))
                        except (Shape, KeyError): x = None
                        for q in sub:
                            if x is not None and q[0] is not None and x.sort() == q[0].sort() and (x.eq(q[0]) or (arr_same(e, b, x, q[0]) if z3.is_array(x) else e.entails(b, x == q[0]))):
                                q[1].append(p); break
                        else: sub.append((x, [p]))
                    np += [q[1] for q in sub]
                if DBG == '4' and len(np) > len(parts):
                    for q in np: print('SPLITBY', q[1] if isinstance(q, tuple) else q, [str(term(W.get(b, p)))[:200] for p in (q[1] if isinstance(q, tuple) else q)], [x.case[:2] for x in b.ev if x.case], b.stack[-1][1])
                parts = np
            if len(parts) > 1:
                ch2 = True
                if DBG: print('split', head, parts)
                for i, part in enumerate(parts):
                    for p in part: split[p] = split.get(p, ()) + (i,)
        for n, f in ok:
            for b in backs:
                g = safe(f, b)
                if g is None or not e.entails(b, g):
                    if DBG == '3' and n[0] == 'fold' and g is not None:
                        F = [x for x in b.pc if z3.is_implies(x) and x.arg(1).decl().eq(g.decl())]
                        print('backev', [x.case[0] for x in b.ev if x.case], b.pc[-6:])
                        for x in F:
                            print([ (i, e.entails(b, g.arg(i) == x.arg(1).arg(i))) for i in range(g.num_args())])
                            for i in range(g.num_args()):
                                if not e.entails(b, g.arg(i) == x.arg(1).arg(i)): print(i, g.arg(i), '\n  VS', x.arg(1).arg(i))
                    if DBG: print('drop', head, n, str(g)[:300], [x.case[0] for x in b.ev if x.case][-1:])
                    dropc.add(n); ch2 = True; break
        if not ch2: break
    else:
        raise Unsupported('loop analysis does not converge')
    e.loopcache[key] = {'M': {p: (x[0], x[2]) for p, x in M.items()}, 'ev': hasev, 'sc': set(scopes_mod), 'drop': set(dropc), 'split': dict(split)}
    e.stats['loops']['%s#%s' % (fn.path, fn.blocks[head].get('line'))] = {'changed': len(M), 'invariants': [str(n) for n, _ in ok][:40]}
    # final pass: record obligations
    run = hd.copy(); run.ctl = (depth, head)
    backs, exits = e.run([run], (depth, head, body))
    if not e.muted:
        for b in backs: e.c.loop_back(e, b, head)
        rec(e, fn, head, 'loop invariant holds on entry and is preserved (%d facts)' % (len(ok) + len([1 for g in groups.values() if len(g) > 1])))
    else:
        for b in backs:
            try: e.c.loop_back(e, b, head)
            except Infeasible: pass
    return exits


def rec(e, fn, head, name):
    e.sink.append({'name': name, 'kind': 'inv', 'fn': fn.path, 'line': fn.blocks[head].get('line'), 'file': fn.file, 'res': 'ok', 'by': 'z3', 't': 0})


def fresh_in(e, a, h):
    r = e.frng(a)
    return r is not None and r[0] == 'f' and r[1] >= h


def safe(f, st):
    try: g = f(st)
    except (Shape, KeyError, AttributeError, TypeError, z3.Z3Exception): return None
    if g is None: return None
    return bval(simp(g)) if isz(g) else z3.BoolVal(bool(g))


def prune(M):
    """drop paths covered by a shorter one"""
    return {p: x for p, x in M.items() if not any(p[:i] in M for i in range(1, len(p)))}


def diffM(W, st, a, b, path, ty, out, M):
    """diff, skipping what is already havocked"""
    if path in M: return
    if not any(p[:len(path)] == path for p in M):
        W.diff(st, a, b, path, ty, out); return
    if type(a) is SymV: a = W.e.ex(a)
    if type(b) is SymV: b = W.e.ex(b)
    ka, kb = W.kids(a, ty), W.kids(b, ty)
    if ka is None or kb is None or len(ka) != len(kb) or type(a) is not type(b) or (isinstance(a, Enum) and a.v != b.v):
        W.diff(st, a, b, path, ty, out)
        if path not in out and not any(p[:len(path)] == path for p in out): return
        return
    for (k, x, t), (_, y, _) in zip(ka, kb): diffM(W, st, x, y, path + (k,), t, out, M)


def tyint(e, ty):
    if ty == 'usize':
        for i, t in enumerate(e.T):
            if t['k'] == 'int' and t['n'] == 'usize': return i
    return ty


def make_head(e, W, entry, M, uid, h, split, scopes_mod, hasev, depth, head):
    hd = entry.copy()
    syms = {}
    classes = {}

    def sym(path, v, info):
        kind, v0, ty = info
        nm = 'L%d.%s' % (uid, '.'.join('_'.join(str(x) for x in s) for s in path))
        if kind == 'poison': return None
        if kind == 'whole': return SymV(ty, nm, 0, h)
        if type(v) is SymV and e.scalar(e.strip(v.ty)): v = e.ex(v)
        srt = scalar_sort(v)
        if isinstance(v, Opq): return Opq(v.ty, z3.Int('opq:' + nm))
        if srt is None: return SymV(ty, nm, 0, h) if isinstance(ty, int) else None
        t0 = term(v)
        ck = (str(t0.sort()), t0.get_id() if True else 0, split.get(path, ()))
        e.keep.append(t0)
        if ck in classes: r = classes[ck]
        else:
            if isinstance(v, RcV): r = e.addr(nm, 0, h)
            elif t0.sort() == I:
                t = tyint(e, ty)
                r = e.int(nm, t if isinstance(t, int) and e.k(t) in ('int', 'char') else None)
            elif t0.sort() == Str: r = e.str(nm)
            else:
                r = z3.Const(nm, t0.sort()); e.keep.append(r)
                if z3.is_array(r): e.arrhi[r.get_id()] = h
            classes[ck] = r
        syms[path] = (r.get_id(), v)
        return RcV(r, v.ty) if isinstance(v, RcV) else r

    for root, v, ty in list(W.roots(entry)):
        path = (root,)
        if not any(p[0] == root for p in M): continue
        nv = W.subst(v, path, M, sym)
        if root[0] == 'loc': hd.loc[(root[1], root[2])] = nv
        elif root[0] == 'cell': hd.cells[root[1]] = (hd.cells[root[1]][0], nv, hd.cells[root[1]][2])
        elif root[0] == 'tok': hd.tok[root[1]] = nv
        else: hd.ghost[root[1]] = nv
    for k in scopes_mod:
        if k in hd.scopes:
            a, ch = hd.scopes[k]
            hd.scopes[k] = (a, ('havoc', ch, 'L%d' % uid))
    if hasev:
        from .contract import Ev
        hd.ev = hd.ev + (Ev(kind='loop', case=(uid,)),)
    return hd, syms


def candidates(e, W, entry, hd, M, syms, head, h):
    out = []
    ints = []
    for p, (kind, v, ty) in M.items():
        if kind != 'leaf': continue
        if p not in syms: continue
        v0 = W.get(entry, p)
        if scalar_sort(v0) == I:
            ints.append(p)
            t0 = term(v0)
            out.append((('ge', p), lambda st, p=p, t0=t0: term(W.get(st, p)) >= t0))
            out.append((('lee', p), lambda st, p=p, t0=t0: term(W.get(st, p)) <= t0))
    # iterators and ranges: i <= n
    for root, v, ty in list(W.roots(hd)):
        if not any(p[0] == root for p in M): continue
        stack = [((root,), v)]
        while stack:
            path, x = stack.pop()
            if isinstance(x, It):
                out.append((('it', path), lambda st, path=path: ival(W.get(st, path).i) <= ival(W.get(st, path).n)))
            elif isinstance(x, Agg) and x.ty is not None and e.T[x.ty].get('path') == 'core::ops::range::Range':
                out.append((('it', path), lambda st, path=path: ival(e.ex(W.get(st, path).fs[0])) <= ival(e.ex(W.get(st, path).fs[1]))))
            if type(x) is SymV or (isinstance(x, Ref)): continue
            ks = W.kids(x, None)
            if ks and len(path) < 6: stack += [(path + (k,), c) for k, c, t in ks]
    # order between changed integers, and against integers that stay
    if len(ints) <= 10:
        for p in ints:
            for q in ints:
                if p != q: out.append((('le', p, q), lambda st, p=p, q=q: term(W.get(st, p)) <= term(W.get(st, q))))
        # against integers of the same function that stay as they are
        stay = []
        for root, v, ty in list(W.roots(hd)):
            if root[0] != 'loc' or root[1] != W.depth or any(p[0] == root for p in M): continue
            if isinstance(scalar_sort(v), z3.SortRef) and scalar_sort(v) == I and not isinstance(v, (Opq, RcV)): stay.append((root, term(v)))
        for p in ints:
            for root, t0 in stay[:6]: out.append((('stay', p, root), lambda st, p=p, t0=t0: term(W.get(st, p)) <= t0))
    # against the terms the contract names
    for b in e.c.loop_terms(e, entry):
        nm, f = b if isinstance(b, tuple) else (str(b), (lambda st, b=b: b))
        for p in ints:
            x = lambda st, p=p: term(W.get(st, p))
            out.append((('t<=', p, nm), lambda st, x=x, f=f: x(st) <= f(st)))
            out.append((('t<', p, nm), lambda st, x=x, f=f: x(st) < f(st)))
            out.append((('t>=', p, nm), lambda st, x=x, f=f: x(st) >= f(st)))
            out.append((('t>', p, nm), lambda st, x=x, f=f: x(st) > f(st)))
    out += e.c.loop_cands(e, entry, hd, head, W, M)
    return out
