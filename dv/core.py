"""Symbolic execution of MIR, function by function, against contracts."""
import z3, time, sys
from .mir import Prog, Fn, base
from .vals import *
from .strs import Strs, Str, EMPTY, slen, ssub

I = z3.IntSort(); B = z3.BoolSort()
UMAX = 2 ** 64 - 1
BITS = {'usize': (64, False), 'isize': (64, True), 'u8': (8, False), 'i8': (8, True), 'u16': (16, False),
        'i16': (16, True), 'u32': (32, False), 'i32': (32, True), 'u64': (64, False), 'i64': (64, True),
        'u128': (128, False), 'i128': (128, True)}

# leaves of a token cell
TOK = {'parser': I, 'cs': I, 'ce': I, 'ms': I, 'me': I, 'name': Str, 'vset': B, 'val': Str, 'capv': Str, 'matv': Str,
       'pset': B, 'parent': I, 'clen': I, 'carr': z3.ArraySort(I, I), 'ahas': z3.ArraySort(Str, B),
       'aval': z3.ArraySort(Str, Str), 'flags': z3.BitVecSort(8), 'pin': B}
HAV = {k: z3.Function('hav_' + k, z3.ArraySort(I, s), I, z3.ArraySort(I, s)) for k, s in TOK.items()}
rtext = z3.Function('rtext', I, I, I, Str)          # text of range s..e of the source of parser p
psource = z3.Function('psource', I, Str)            # source text of parser p
pfile = z3.Function('pfile', I, Str)
mname = z3.Function('mname', I, Str)                # name of the (unknown) matcher at an address
mcons = z3.Function('mcons', I, B)
mcustom = z3.Function('mcustom', I, B)


BOXLIKE = ('alloc::boxed::Box', 'alloc::boxed::BoxRaw', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull', 'alloc::raw_vec::RawVec')


def isz(x): return isinstance(x, z3.ExprRef)
def ival(x): return x if isz(x) else z3.IntVal(x)
def bval(x): return x if isz(x) else z3.BoolVal(bool(x))


def simp(x):
    if not isz(x): return x
    x = z3.simplify(x)
    if z3.is_int_value(x): return x.as_long()
    if z3.is_true(x): return True
    if z3.is_false(x): return False
    if z3.is_bv_value(x): return x
    return x


def And(*xs):
    r = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        r.append(x)
    if not r: return True
    return r[0] if len(r) == 1 else z3.And(*r)


def Or(*xs):
    r = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        r.append(x)
    if not r: return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def Not(x):
    if x is True: return False
    if x is False: return True
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    if c is True: return a
    if c is False: return b
    if not isz(a) and not isz(b) and a is b: return a
    if isz(a) and isz(b) and a.eq(b): return a
    if isinstance(a, bool) or isinstance(b, bool): a = bval(a); b = bval(b)
    if isinstance(a, int): a = z3.IntVal(a)
    if isinstance(b, int): b = z3.IntVal(b)
    if z3.eq(a, b): return a
    return z3.If(c, a, b)


def eq(a, b):
    if not isz(a) and not isz(b): return a == b
    if isz(a) and isz(b):
        if a.eq(b): return True
    elif isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool): a, b = b, a
        return a if b else Not(a)
    elif isz(a) and z3.is_bv(a): b = z3.BitVecVal(b, a.size())
    elif isz(b) and z3.is_bv(b): a = z3.BitVecVal(a, b.size())
    return simp(a == b)


class State:
    __slots__ = ('loc', 'stack', 'cells', 'tok', 'pc', 'epoch', 'nalloc', 'ghost', 'scopes', 'ev', 'known', 'ctl')

    def copy(s):
        n = State()
        n.loc = dict(s.loc); n.stack = s.stack; n.cells = dict(s.cells); n.tok = dict(s.tok); n.pc = s.pc
        n.epoch = s.epoch; n.nalloc = s.nalloc; n.ghost = dict(s.ghost); n.scopes = dict(s.scopes); n.ev = s.ev
        n.known = dict(s.known); n.ctl = s.ctl
        return n


class Sol:
    """incremental solver following the path condition"""
    def __init__(s, eng, timeout):
        s.eng = eng; s.z = z3.SolverFor('ALL') if False else z3.Solver()
        s.z.set('timeout', timeout)
        s.stack = []; s.fc = [0]
        s.n = 0; s.t = 0.0

    def sync(s, pc):
        i = 0
        m = min(len(pc), len(s.stack))
        while i < m and s.stack[i] is pc[i]: i += 1
        k = len(s.stack) - i
        if k:
            s.z.pop(k); del s.stack[i:]; del s.fc[i + 1:]
        for x in pc[i:]:
            s.z.push(); s.fc.append(s.fc[-1])
            s.facts()
            s.z.add(x); s.stack.append(x)
        s.facts()

    def facts(s):
        f = s.eng.facts
        c = s.fc[-1]
        if c < len(f):
            for x in f[c:]: s.z.add(x)
            s.fc[-1] = len(f)

    def check(s, pc, extra):
        t0 = time.time()
        s.sync(pc)
        s.n += 1
        r = s.z.check(extra) if extra is not None else s.z.check()
        s.t += time.time() - t0
        return r


class Engine:
    def __init__(s, prog, contract, timeout=20000):
        s.p = prog; s.T = prog.T; s.c = contract
        s.facts = []; s.S = Strs(s.facts)
        s.made = set(); s.rng = {}; s.keep = []
        s.freshcache = {}; s.epochs = {}
        s.arrhi = {}; s.havinfo = {}
        s.sol = Sol(s, 400)
        s.timeout = timeout
        s.obl = []; s.sink = None; s.muted = 0
        s.uid = 0
        s.loopcache = {}
        s.stats = {'paths': 0, 'steps': 0, 'solver': 0.0, 'queries': 0, 'inlined': {}, 'models': {}, 'loops': {}}
        s.opq = {}
        s.hmemo = {}
        s.unsupported = []
        s.deadline = None
        s.maxpaths = 200000
        from . import models
        s.models = models

    # ---------- facts and fresh symbols
    def fact(s, f):
        if f is True: return
        s.facts.append(f)

    def A(s, k):
        if k not in s.epochs:
            s.epochs[k] = z3.Int('A%d' % k)
            s.fact(s.epochs[k] >= 1)
            ks = sorted(s.epochs)
            i = ks.index(k)
            if i: s.fact(s.epochs[ks[i - 1]] <= s.epochs[k])
            if i + 1 < len(ks): s.fact(s.epochs[k] <= s.epochs[ks[i + 1]])
        return s.epochs[k]

    def fresh_uid(s):
        s.uid += 1
        return s.uid

    def int(s, name, ty=None):
        v = z3.Int(name)
        if name not in s.made:
            s.made.add(name); s.keep.append(v)
            if ty is not None:
                n = s.T[ty]['n'] if s.T[ty]['k'] == 'int' else 'u32'
                b, sg = BITS[n]
                lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if sg else (0, (1 << b) - 1)
                if s.T[ty]['k'] == 'char': hi = 0x10ffff
                s.fact(v >= lo); s.fact(v <= hi)
        return v

    def addr(s, name, lo, hi):
        v = z3.Int(name)
        if name not in s.made:
            s.made.add(name); s.keep.append(v)
            s.setrng(v, lo, hi)
        return v

    def setrng(s, v, lo, hi):
        if v.get_id() in s.rng: return
        s.keep.append(v)
        s.rng[v.get_id()] = (lo, hi)
        s.fact(v >= (1 if lo == 0 else s.A(lo))); s.fact(v < s.A(hi))

    def str(s, name):
        return s.S.touch(z3.Const(name, Str))

    # ---------- types
    def k(s, ty): return s.T[ty]['k']

    def adt(s, ty):
        t = s.T[ty]
        return t['path'] if t['k'] == 'adt' else None

    def scalar(s, ty):
        """kind of leaf for a type, or None for composites"""
        t = s.T[ty]; k = t['k']
        if k == 'int': return 'bv' if t['n'] == 'u8' else 'int'
        if k == 'char': return 'int'
        if k == 'bool': return 'bool'
        if k == 'str': return 'str'
        if k in ('ref', 'ptr') and s.T[t['t']]['k'] == 'str': return 'str'
        if k == 'adt':
            p = t['path']
            if p == 'alloc::string::String': return 'str'
            if p.endswith('rc::Rc'): return 'addr'
        return None

    def strip(s, ty):
        """look through Box and RefCell"""
        while True:
            t = s.T[ty]
            if t['k'] == 'adt' and t['path'] in ('alloc::boxed::Box', 'core::cell::RefCell', 'core::cell::Cell'):
                if t['path'] == 'alloc::boxed::Box' and s.k(t['args'][0]) == 'dyn': return ty
                ty = t['args'][0]
                continue
            return ty

    def leafs(s, ty, pre=()):
        """flatten a type to scalar leaves: list of (path, kind, ty)"""
        ty = s.strip(ty)
        k = s.scalar(ty)
        if k: return [(pre, k, ty)]
        t = s.T[ty]
        if t['k'] == 'tuple':
            r = []
            for i, x in enumerate(t['ts']): r += s.leafs(x, pre + (('f', i),))
            return r
        if t['k'] == 'adt' and not t['opaque'] and t['kind'] == 'struct':
            r = []
            for i, (n, x) in enumerate(t['variants'][0]['fields']): r += s.leafs(x, pre + (('f', i),))
            return r
        if t['k'] == 'adt' and t['kind'] == 'enum':
            if len(pre) > 8: raise Unsupported('recursive element type ' + t['s'])
            r = [(pre + (('tag',),), 'int', None)]
            for vi, v in enumerate(t['variants']):
                for i, (n, x) in enumerate(v['fields']): r += s.leafs(x, pre + (('d', vi), ('f', i)))
            return r
        if t['k'] in ('ref', 'ptr'):
            return s.leafs(t['t'], pre)          # shared references inside containers are kept by value
        return [(pre, 'opq', ty)]

    def ksort(s, k):
        return {'int': I, 'bool': B, 'str': Str, 'addr': I, 'bv': z3.BitVecSort(8), 'opq': I}[k]

    # ---------- expansion of symbolic values
    def expand(s, v):
        ty = s.strip(v.ty); t = s.T[ty]; n = v.name
        k = s.scalar(ty)
        if k == 'int': return s.int(n, ty)
        if k == 'bool': return z3.Bool(n)
        if k == 'bv': return z3.BitVec(n, 8)
        if k == 'str': return s.str(n)
        if k == 'addr': return RcV(s.addr(n, v.lo, v.hi), t['args'][0])
        if t['k'] in ('ref', 'ptr'):
            return Ref(('V', SymV(t['t'], n + '.*', v.lo, v.hi)))
        if t['k'] == 'tuple':
            return Agg(ty, [SymV(x, '%s.%d' % (n, i), v.lo, v.hi) for i, x in enumerate(t['ts'])])
        if t['k'] == 'adt':
            p = t['path']
            if p == 'alloc::vec::Vec': return s.symvec(ty, n, v.lo, v.hi)
            if p.endswith('HashMap'): return s.symmap(ty, n, v.hi)
            if p in ('core::cell::Ref', 'core::cell::RefMut'):
                return Ref(('V', SymV(t['args'][0], n + '.*', v.lo, v.hi)))
            if p == 'alloc::boxed::Box':     # Box<dyn ..>
                return SymV(ty, n, v.lo, v.hi)
            if t['kind'] == 'struct' and not t['opaque'] and t['variants']:
                return Agg(ty, [SymV(x, '%s.%s' % (n, f), v.lo, v.hi) for f, x in t['variants'][0]['fields']])
            if t['kind'] == 'enum' and t['variants']:
                tag = z3.Int(n + '.tag')
                if (n + '.tag') not in s.made:
                    s.made.add(n + '.tag'); s.keep.append(tag)
                    s.fact(tag >= 0); s.fact(tag < len(t['variants']))
                return SEnum(ty, tag, n, v.lo, v.hi)
        if t['k'] == 'array':
            return Agg(ty, [SymV(t['t'], '%s.%d' % (n, i), v.lo, v.hi) for i in range(t['n'])])
        if t['k'] == 'slice':
            return s.symvec(ty, n, v.lo, v.hi, t['t'])
        if t['k'] == 'closure':
            return Agg(ty, [SymV(x, '%s.%d' % (n, i), v.lo, v.hi) for i, x in enumerate(t['ups'])])
        o = z3.Int('opq:' + n)
        return Opq(ty, o)

    def symvec(s, ty, n, lo, hi, et=None):
        if et is None: et = s.T[ty]['args'][0]
        ln = s.int(n + '.len')
        if n + '.len!' not in s.made:
            s.made.add(n + '.len!'); s.fact(ln >= 0); s.fact(ln <= 2 ** 62)
        arrs = []
        for i, (p, k, t) in enumerate(s.leafs(et)):
            a = z3.Const('%s.arr%d' % (n, i), z3.ArraySort(I, s.ksort(k)))
            s.keep.append(a)
            s.arrhi[a.get_id()] = hi
            arrs.append(a)
        return VecV(ty, et, ln, arrs)

    def symmap(s, ty, n, hi):
        vt = s.T[ty]['args'][1]
        arrs = []
        for i, (p, k, t) in enumerate(s.leafs(vt)):
            a = z3.Const('%s.val%d' % (n, i), z3.ArraySort(Str, s.ksort(k))); s.keep.append(a)
            s.arrhi[a.get_id()] = hi
            arrs.append(a)
        h = z3.Const(n + '.has', z3.ArraySort(Str, B)); s.keep.append(h)
        return MapV(ty, vt, h, arrs)

    def ex(s, v):
        if type(v) is SymV: return s.expand(v)
        return v

    def payload(s, e, v, i):
        if (v, i) in e.over: return e.over[(v, i)]
        t = s.T[e.ty]['variants'][v]['fields'][i]
        return SymV(t[1], '%s.%s.%s' % (e.name, s.T[e.ty]['variants'][v]['name'], t[0]), e.lo, e.hi)

    # ---------- arrays
    def sel(s, st, arr, i, skip=False):
        """read arr[i] resolving stores whose index is syntactically decided"""
        i = ival(i) if not (isz(i)) else i
        a = arr
        while True:
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
                j = a.arg(1)
                if j.eq(i): return a.arg(2)
                if s.distinct(i, j): a = a.arg(0); continue
                r = simp(j == i)
                if r is True: return a.arg(2)
                if r is False: a = a.arg(0); continue
                if st is not None:
                    if s.entails(st, j == i): return a.arg(2)
                    if s.entails(st, j != i): a = a.arg(0); continue
                return If(j == i, a.arg(2), s.sel(st, a.arg(0), i))
            break
        if z3.is_const_array(a): return a.arg(0)
        r = z3.Select(a, i)
        return r

    def distinct(s, a, b):
        if a.eq(b): return False
        ra = s.frng(a); rb = s.frng(b)
        if ra is None or rb is None: return False
        if ra[0] == 'f' and rb[0] == 'f': return ra[1:] != rb[1:]
        if ra[0] == 'f': return rb[2] <= ra[1] or rb[1] > ra[1]
        if rb[0] == 'f': return ra[2] <= rb[1] or ra[1] > rb[1]
        return ra[2] <= rb[1] or rb[2] <= ra[1]

    def frng(s, a):
        i = a.get_id()
        if i in s.freshcache: return ('f',) + s.freshcache[i]
        if i in s.rng: return ('r',) + s.rng[i]
        return None

    def elem(s, st, v, idx):
        """element of a VecV"""
        vals = [s.sel(st, a, idx) for a in v.arrs]
        lv = s.leafs(v.et)
        for x, a, (p, k, t) in zip(vals, v.arrs, lv):
            s.leafact(x, k, t, a)
        return s.build(v.et, lv, vals)

    def leafact(s, x, k, t, a):
        if not isz(x): return
        if k == 'str': s.S.touch(x)
        if k == 'addr' and s.frng(x) is None and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT:
            h = s.arrhi.get(x.arg(0).get_id())
            if h is not None: s.setrng(x, 0, h)
        if k == 'int' and t is not None and x.get_id() not in s.rng and not z3.is_int_value(x):
            s.rng[x.get_id()] = None; s.keep.append(x)
            n = s.T[t]['n'] if s.T[t]['k'] == 'int' else 'u32'
            b, sg = BITS[n]
            s.fact(x >= (-(1 << (b - 1)) if sg else 0)); s.fact(x <= ((1 << (b - 1)) - 1 if sg else (1 << b) - 1))

    def build(s, ty, lv, vals):
        ty = s.strip(ty); t = s.T[ty]
        if len(lv) == 1 and lv[0][0] == ():
            k = lv[0][1]
            return s.wrap(ty if s.scalar(ty) or k == 'opq' else lv[0][2], k, vals[0])
        if t['k'] in ('ref', 'ptr'):
            return Ref(('V', s.build(t['t'], lv, vals)))
        def group(pre):
            idx = [i for i, l in enumerate(lv) if l[0][:len(pre)] == pre]
            return [(lv[i][0][len(pre):],) + lv[i][1:] for i in idx], [vals[i] for i in idx]
        if t['k'] == 'tuple':
            return Agg(ty, [s.build(x, *group((('f', i),))) for i, x in enumerate(t['ts'])])
        if t['kind'] == 'struct':
            return Agg(ty, [s.build(x, *group((('f', i),))) for i, (n, x) in enumerate(t['variants'][0]['fields'])])
        g, gv = group((('tag',),))
        tag = simp(gv[0])
        over = {}
        for vi, v in enumerate(t['variants']):
            for i, (n, x) in enumerate(v['fields']):
                over[(vi, i)] = s.build(x, *group((('d', vi), ('f', i))))
        if isinstance(tag, int):
            return Enum(ty, tag, [over[(tag, i)] for i in range(len(t['variants'][tag]['fields']))])
        return SEnum(ty, tag, 'elem', 0, 0, over)

    def wrap(s, ty, k, x):
        if k == 'addr': return RcV(x, s.T[ty]['args'][0])
        if k == 'opq': return Opq(ty, x)
        return simp(x) if k in ('int', 'bool') else x

    def flat(s, st, ty, v, lv, old):
        """scalar leaf terms of value v (old terms kept for inactive enum payloads)"""
        out = []
        for (p, k, t), o in zip(lv, old):
            out.append(s.flat1(st, v, p, k, o))
        return out

    def flat1(s, st, v, p, k, o):
        v = s.ex(v)
        while not p and isinstance(v, Ref): v = s.ex(s.rd(st, v.root, v.path))
        if not p:
            if k == 'addr': return v.a
            if k == 'opq': return v.t if isinstance(v, Opq) else s.opaque_term(v)
            if k == 'int': return ival(v)
            if k == 'bool': return bval(v)
            if k == 'bv': return v if isz(v) else z3.BitVecVal(v, 8)
            return v
        e = p[0]
        if isinstance(v, Ref): v = s.ex(s.rd(st, v.root, v.path))
        if e[0] == 'tag':
            return ival(v.v if isinstance(v, Enum) else v.tag)
        if e[0] == 'f': return s.flat1(st, v.fs[e[1]], p[1:], k, o)
        if e[0] == 'd':
            if isinstance(v, Enum):
                if v.v != e[1]: return o
                return s.flat1(st, v.fs[p[1][1]], p[2:], k, o)
            return s.flat1(st, s.payload(v, e[1], p[1][1]), p[2:], k, o)

    def opaque_term(s, v):
        key = repr(v)
        if key not in s.opq: s.opq[key] = (z3.Int('opqv%d' % len(s.opq)), v)
        return s.opq[key][0]

    # ---------- token heap
    def hread(s, st, leaf, a):
        return s._hread(st, leaf, st.tok[leaf], a)

    def _hread(s, st, leaf, arr, a):
        key = (arr.get_id(), a.get_id())
        if key in s.hmemo: return s.hmemo[key]
        r = s.__hread(st, leaf, arr, a)
        s.keep.append(arr); s.keep.append(a)
        if isz(r) and TOK[leaf] == Str: s.S.touch(r)
        if leaf in ('cs', 'ce', 'ms', 'me', 'clen') and isz(r) and r.get_id() not in s.rng and not z3.is_int_value(r):
            s.rng[r.get_id()] = None; s.keep.append(r)
            s.fact(r >= 0); s.fact(r <= (UMAX if leaf != 'clen' else 2 ** 62))
        if not s.hreadcond: s.hmemo[key] = r
        return r
    hreadcond = False

    def __hread(s, st, leaf, arr, a):
        conds = []
        while True:
            d = arr.decl() if z3.is_app(arr) else None
            if d is not None and d.kind() == z3.Z3_OP_STORE:
                j = arr.arg(1)
                if j.eq(a): return arr.arg(2)
                if s.distinct(a, j): arr = arr.arg(0); continue
                rest = s._hread(st, leaf, arr.arg(0), a)
                return If(j == a, arr.arg(2), rest)
            if d is not None and d.eq(HAV[leaf]):
                e, F = s.havinfo[arr.get_id()]
                r = s.frng(a)
                if r is not None:
                    if r[1] >= e: return s.base(leaf, F, a)
                    if r[0] == 'f' or r[2] <= e: arr = arr.arg(0); continue
                return If(a < s.A(e), s._hread(st, leaf, arr.arg(0), a), s.base(leaf, F, a))
            return s.base(leaf, arr, a)

    def base(s, leaf, arr, a):
        r = z3.Select(arr, a)
        h = s.arrhi.get(arr.get_id())
        if leaf in ('parser', 'parent') and h is not None: s.setrng(r, 0, h)
        if leaf == 'carr' and h is not None:
            s.arrhi[r.get_id()] = h; s.keep.append(r)
        return r

    def hwrite(s, st, leaf, a, v):
        v = ival(v) if TOK[leaf] == I else bval(v) if TOK[leaf] == B else v
        st.tok[leaf] = z3.Store(st.tok[leaf], a, v)

    def hav(s, st, e):
        """heap after an event: cells below A(e) unchanged, new cells from F"""
        for leaf in TOK:
            st.tok[leaf] = s.havarr(leaf, st.tok[leaf], e)

    def havarr(s, leaf, arr, e):
        t = HAV[leaf](arr, z3.IntVal(e))
        if t.get_id() not in s.havinfo:
            F = z3.Const('F%d_%s' % (e, leaf), arr.sort())
            s.keep += [t, F]
            s.arrhi[F.get_id()] = e + 1
            s.havinfo[t.get_id()] = (e, F)
        return t

    def alloc(s, st):
        e, n = st.epoch, st.nalloc
        st.nalloc += 1
        t = s.A(e) + n if n else s.A(e)
        t = z3.simplify(t)
        if t.get_id() not in s.freshcache:
            s.freshcache[t.get_id()] = (e, n); s.keep.append(t)
        return t

    def bump(s, st):
        s.assume(st, s.A(st.epoch + 1) >= s.A(st.epoch) + st.nalloc)
        st.epoch += 1; st.nalloc = 0
        return st.epoch

    # ---------- path conditions
    def assume(s, st, c):
        c = simp(c) if isz(c) else c
        if c is True: return True
        if c is False: raise Infeasible()
        st.pc = st.pc + (c,)
        st.known[c.get_id()] = True
        s.keep.append(c)
        n = Not(c)
        st.known[n.get_id()] = False; s.keep.append(n)
        if z3.is_and(c):
            for x in c.children(): st.known[x.get_id()] = True
        if z3.is_eq(c) and z3.is_int_value(c.arg(1)): st.known[('=', c.arg(0).get_id())] = c.arg(1).as_long()
        elif z3.is_eq(c) and z3.is_int_value(c.arg(0)): st.known[('=', c.arg(1).get_id())] = c.arg(0).as_long()
        return True

    def decide(s, st, c):
        """True/False/None(both feasible)"""
        if not isz(c): return bool(c)
        c = simp(c)
        if not isz(c): return bool(c)
        k = st.known.get(c.get_id())
        if k is not None: return k
        s.tick()
        t = s.sol.check(st.pc, c)
        if t == z3.unsat:
            st.known[c.get_id()] = False; s.keep.append(c)
            return False
        f = s.sol.check(st.pc, Not(c))
        if f == z3.unsat:
            st.known[c.get_id()] = True; s.keep.append(c)
            return True
        return None

    def case(s, st, c):
        """True/False; where both are feasible the specification is judged for each"""
        d = s.decide(st, c)
        if d is None: raise Split(simp(c))
        return d

    def kcase(s, st, v, n):
        """which of its n variants a value has"""
        if isinstance(v, Enum): return v.v
        for i in range(n - 1):
            if s.case(st, eq(v.tag, i)): return i
        return n - 1

    def by_case(s, st, f):
        work = [st]
        while work:
            x = work.pop(); y = x.copy()
            try: f(x)
            except Infeasible: pass
            except Unsupported as q: s.undecided(x, str(q))
            except Split as q:
                for c in (Not(q.c), q.c):
                    z = y.copy()
                    try: s.assume(z, c)
                    except Infeasible: continue
                    work.append(z)

    def tick(s):
        if s.deadline and time.time() > s.deadline: raise Unsupported('time budget exhausted')

    def entails(s, st, c):
        if not isz(c): return bool(c)
        c = simp(c)
        if not isz(c): return bool(c)
        k = st.known.get(c.get_id())
        if k is not None: return k
        return s.sol.check(st.pc, Not(c)) == z3.unsat

    def feasible(s, st):
        return s.sol.check(st.pc, None) != z3.unsat

    # ---------- obligations
    def oblige(s, st, name, goal, kind='post'):
        goal = simp(goal) if isz(goal) else goal
        if s.muted:
            if goal is False: raise Infeasible()
            s.assume(st, goal)
            return
        rec = {'name': name, 'kind': kind, 'fn': st.stack[-1][0].path if st.stack else '', 'line': None}
        if st.stack:
            f, bb = st.stack[-1][0], st.stack[-1][1]
            rec['line'] = f.blocks[bb].get('line')
            rec['file'] = f.file
        t0 = time.time()
        if goal is True: rec['res'] = 'ok'; rec['by'] = 'simplifier'
        else:
            r, info = s.prove(st, goal)
            rec['res'] = r; rec['by'] = 'z3'; rec['info'] = info
        rec['t'] = time.time() - t0
        s.sink.append(rec)
        if goal is False: raise Infeasible()
        s.assume(st, goal)

    def finding(s, st, key, name, goal):
        """an obligation that fails on the unchanged tree: reported as a known finding if known_findings.txt lists its key"""
        if s.muted: return
        goal = simp(goal) if isz(goal) else goal
        f = st.stack[-1][0] if st.stack else None
        r = 'ok' if goal is True else s.prove(st, goal)[0]
        s.sink.append({'name': name, 'kind': 'post', 'fn': f.path if f else '', 'line': None, 'res': r, 'by': 'z3', 't': 0, 'key': key})

    def prove(s, st, goal):
        if s.deadline and time.time() > s.deadline + 30: raise Unsupported('time budget exhausted')
        r = s.sol.check(st.pc, Not(goal))
        if r == z3.unsat: return 'ok', None
        z = z3.Solver(); z.set('timeout', s.timeout)
        z.add(*s.facts); z.add(*st.pc); z.add(Not(goal))
        r = z.check(); s.stats['queries'] += 1
        if r == z3.unsat: return 'ok', None
        if r == z3.sat:
            m = z.model()
            return 'failed', s.describe(st, m, goal)
        return 'unknown', 'solver: ' + z.reason_unknown()

    def describe(s, st, m, goal):
        vals = {}
        for d in m.decls():
            if d.arity() == 0 and d.range() in (I, B):
                vals[d.name()] = str(m[d])
        tr = ['%s %s' % (x.kind, x.case[0] if x.case else '') for x in st.ev]
        return {'model': dict(sorted(vals.items())[:60]), 'goal': str(goal)[:600], 'events': tr,
                'path': [str(x)[:200] for x in st.pc[-25:]]}

    # ---------- places
    def place(s, st, pl):
        d = len(st.stack) - 1
        root = ('L', d, pl[0]); path = ()
        ty = st.stack[-1][0].locals[pl[0]]; T = s.T
        for e in pl[1]:
            k = e[0]
            t = T[ty] if ty is not None else None
            if k == '*':
                v = s.rd(st, root, path)
                if type(v) is SymV and s.adt(s.strip(v.ty)) != 'alloc::boxed::Box' and s.k(s.strip(v.ty)) != 'dyn': v = s.expand(v)
                if isinstance(v, Ref): root, path = v.root, v.path
                elif isinstance(v, TokV): root, path = ('T', v.a), ()
                elif isinstance(v, RcV): root, path = ('C', v.a, v.ty), ()
                # else: Box held by value -> identity
                if t is None: pass
                elif t['k'] in ('ref', 'ptr'): ty = t['t']
                elif t['k'] == 'adt' and t['args']: ty = t['args'][0]
                else: ty = None
            elif k == 'f':
                if t is not None and t['k'] == 'adt' and t['path'] in BOXLIKE: ty = e[2]; continue   # Box internals
                v = None
                if not path or path[-1][0] != 'd':
                    v = s.rd(st, root, path)
                    if isinstance(v, Ref): root, path = v.root, v.path; ty = e[2]; continue
                    if isinstance(v, (TokV, DynV)) or (isinstance(v, tuple) and v[0] == 'uninit'): ty = e[2]; continue
                path = path + (('f', e[1]),); ty = e[2]
            elif k == 'd': path = path + (('d', e[1]),)
            elif k == 'i':
                path = path + (('i', s.rd(st, ('L', d, e[1]), ())),)
                ty = (t['t'] if t['k'] in ('array', 'slice') else t['args'][0]) if t is not None else None
            elif k == 'ci':
                path = path + (('ci', e[1], e[2]),)
                ty = (t['t'] if t['k'] in ('array', 'slice') else t['args'][0]) if t is not None else None
            else: raise Unsupported('projection %s' % (e,))
        return root, path

    def rd(s, st, root, path):
        k = root[0]
        if k == 'L':
            v = st.loc.get((root[1], root[2]))
        elif k == 'C':
            v = s.cell(st, root)
        elif k == 'V':
            v = root[1]
        elif k == 'T':
            if not path: return TokV(root[1])
            if path[0][0] == 'tf':
                v = s.models.tokfield(s, st, root[1], path[0][1]); path = path[1:]
            else: return s.rd(st, root, path[1:])
        else: raise Unsupported('root %s' % (root,))
        for i, e in enumerate(path): v = s.step(st, v, e)
        return v

    def step(s, st, v, e):
        v = s.ex(v)
        k = e[0]
        if v is None: return None
        if k == 'dyn':
            if isinstance(v, DynV): return v.val
            raise Unsupported('concrete value behind %r' % (v,))
        if k == 'f':
            if isinstance(v, (Agg, Enum)): return v.fs[e[1]] if e[1] < len(v.fs) else None
            if isinstance(v, tuple) and v[0] == 'pl': return s.payload(v[1], v[2], e[1])
            if isinstance(v, (Ref, TokV, DynV)): return v
            if isinstance(v, It) and v.kind == 'range':
                return v.i if e[1] == 0 else v.n
            raise Unsupported('field of %r' % (v,))
        if k == 'd':
            if isinstance(v, Enum): return v if v.v == e[1] else None
            if isinstance(v, SEnum): return ('pl', v, e[1])
            raise Unsupported('downcast of %r' % (v,))
        if k == 'i':
            if isinstance(v, VecV): return s.elem(st, v, e[1])
            if isinstance(v, Agg) and isinstance(e[1], int): return v.fs[e[1]]
        if k == 'ci':
            if isinstance(v, VecV): return s.elem(st, v, e[1] if not e[2] else simp(ival(v.len) - e[1]))
            if isinstance(v, Agg): return v.fs[e[1] if not e[2] else len(v.fs) - e[1]]
        if k == 'map':
            return s.models.map_get(s, st, v, e[1])
        raise Unsupported('step %s of %r' % (e, v))

    def wr(s, st, root, path, val):
        k = root[0]
        if k == 'L':
            key = (root[1], root[2])
            st.loc[key] = val if not path else s.upd(st, st.loc.get(key), path, val)
        elif k == 'C':
            old = s.cell(st, root)
            s.cellwrite(st, root, val if not path else s.upd(st, old, path, val))
        elif k == 'T':
            if not path or path[0][0] != 'tf': raise Unsupported('write of a whole token')
            f = path[0][1]
            if len(path) > 1:
                val = s.upd(st, s.models.tokfield(s, st, root[1], f), path[1:], val)
            s.models.set_tokfield(s, st, root[1], f, val)
        else: raise Unsupported('write through a shared value')

    def upd(s, st, v, path, val):
        if not path: return val
        v = s.ex(v); e = path[0]
        if isinstance(v, tuple) and v == ('uninit',) and all(x[0] == 'f' for x in path): return val
        if e[0] == 'dyn' and isinstance(v, DynV): return DynV(v.ty, v.cty, s.upd(st, v.val, path[1:], val))
        if e[0] == 'f':
            if isinstance(v, Agg):
                fs = list(v.fs); fs[e[1]] = s.upd(st, fs[e[1]], path[1:], val); return Agg(v.ty, fs)
            if v is None: raise Unsupported('partial initialisation')
            if isinstance(v, It) and v.kind == 'range':
                return It(v.ty, v.kind, v.src, val if e[1] == 0 else v.i, val if e[1] == 1 else v.n)
        if e[0] == 'd':
            if isinstance(v, SEnum):
                n = len(s.T[v.ty]['variants'][e[1]]['fields'])
                v = Enum(v.ty, e[1], [s.payload(v, e[1], i) for i in range(n)])
            if isinstance(v, Enum):
                if v.v != e[1]: raise Unsupported('write to inactive variant')
                fs = list(v.fs); i = path[1][1]; fs[i] = s.upd(st, fs[i], path[2:], val); return Enum(v.ty, v.v, fs)
        if e[0] == 'i':
            if isinstance(v, VecV):
                if len(path) > 1: val = s.upd(st, s.elem(st, v, e[1]), path[1:], val)
                return s.vecset(st, v, e[1], val)
            if isinstance(v, Agg) and isinstance(e[1], int):
                fs = list(v.fs); fs[e[1]] = s.upd(st, fs[e[1]], path[1:], val); return Agg(v.ty, fs)
        raise Unsupported('update %s of %r' % (e, v))

    def vecset(s, st, v, idx, val):
        lv = s.leafs(v.et)
        old = [z3.Select(a, ival(idx)) for a in v.arrs]
        new = s.flat(st, v.et, val, lv, old)
        return VecV(v.ty, v.et, v.len, [z3.Store(a, ival(idx), x) for a, x in zip(v.arrs, new)])

    # cells other than tokens
    def cell(s, st, root):
        a = root[1]; key = a.get_id()
        if key in st.cells: return st.cells[key][1]
        return s.c.cell(s, st, a, root[2])

    def cellwrite(s, st, root, v):
        a = root[1]; key = a.get_id()
        if key not in st.cells:
            if not s.c.may_write_cell(s, st, a, root[2]): raise Unsupported('write to a foreign cell')
        s.keep.append(a)
        st.cells[key] = (a, v, root[2])

    def istok(s, ty):
        """pointee type of an Rc is RefCell<Box<dyn Token>>"""
        t = s.T[ty]
        return t['s'].startswith(('core::cell::RefCell<alloc::boxed::Box<dyn token::Token', 'core::cell::RefCell<alloc::boxed::Box<(dyn token::Token'))

    def ismatcher(s, ty):
        t = s.T[ty]
        return t['s'].startswith(('core::cell::RefCell<alloc::boxed::Box<dyn matcher::Matcher', 'core::cell::RefCell<alloc::boxed::Box<(dyn matcher::Matcher'))

    def rcref(s, rc):
        """reference to the contents of an Rc cell"""
        if s.istok(rc.ty): return Ref(('T', rc.a))
        return Ref(('C', rc.a, rc.ty))

    # ---------- operands and rvalues
    def pty(s, fn, pl):
        ty = fn.locals[pl[0]]
        var = None
        for e in pl[1]:
            t = s.T[ty]
            if e[0] == '*':
                if t['k'] in ('ref', 'ptr'): ty = t['t']
                elif t['k'] == 'adt': ty = t['args'][0]
                else: return None
            elif e[0] == 'f': ty = e[2]; var = None
            elif e[0] in ('i', 'ci'):
                ty = t['t'] if t['k'] in ('array', 'slice') else t['args'][0]
            elif e[0] == 'd': pass
            else: return None
        return ty

    def op(s, st, o):
        k = o[0]
        if k in ('cp', 'mv'):
            pl = o[1]
            fn = st.stack[-1][0]
            root, path = s.place(st, pl)
            if k == 'cp':
                t = s.pty(fn, pl)
                if t is not None and s.adt(t) in BOXLIKE:
                    v = s.rd(st, root, path)
                    if isinstance(v, (Ref, TokV)): return v
                    return Ref(root, path)
            v = s.rd(st, root, path)
            return v
        if k == 'c': return s.const(st, o[1])
        if k == 'rt': return False
        raise Unsupported('operand %s' % (o,))

    def const(s, st, c):
        k = c['c']; t = s.T[c['ty']]
        if k == 'int':
            v = int(c['v'])
            if t['k'] == 'bool': return v != 0
            if t['k'] == 'int' and BITS[t['n']][1]:
                b = BITS[t['n']][0]
                if v >= 1 << (b - 1): v -= 1 << b
            if t['k'] == 'int' and t['n'] == 'u8': return z3.BitVecVal(v, 8)
            if t['k'] == 'adt':
                if t.get('path') == 'core::option::Option' and v == 0 and s.k(t['args'][0]) in ('ref', 'box'): return Enum(c['ty'], 0, [])
                raise Unsupported('constant of type ' + str(t.get('path')))
            return v
        if k == 'str': return s.S.lit(c['v'])
        if k == 'zst':
            if t['k'] == 'fndef': return FnV(c['ty'])
            return Agg(c['ty'], [])
        if k == 'promoted':
            return Ref(('V', s.promoted(c['inst'])))
        if k == 'static': return Ref(('V', Opq(t.get('t', c['ty']), z3.Int('static:' + c['path']))))
        if k == 'opaque':
            return Opq(c['ty'], z3.Int('const:' + str(c.get('v'))[:4000]))
        raise Unsupported('const %s' % k)

    def promoted(s, key):
        f = s.p.by.get(key)
        if f is None: raise Unsupported('promoted ' + key)
        st = State(); st.loc = {}; st.cells = {}; st.tok = {}; st.pc = (); st.epoch = 0; st.nalloc = 0
        st.ghost = {}; st.scopes = {}; st.ev = (); st.known = {}; st.ctl = None
        st.stack = ((f, 0, None, None),)
        b = f.blocks[0]
        for x in b['s']:
            if x[0] == 'dead': continue
            s.assign(st, x)
        v = st.loc[(0, 0)]
        def fix(v):
            if isinstance(v, Ref) and v.root[0] == 'L': return Ref(('V', fix(s.rd(st, v.root, v.path))))
            if isinstance(v, Agg): return Agg(v.ty, [fix(x) for x in v.fs])
            if isinstance(v, Enum): return Enum(v.ty, v.v, [fix(x) for x in v.fs])
            return v
        v = fix(v)
        t = s.T[f.locals[0]]
        # the promoted local holds the value itself when typed T, or a reference
        return v

    def mkref(s, st, pl):
        fn = st.stack[-1][0]
        root, path = s.place(st, pl)
        t = s.pty(fn, pl)
        if t is not None and s.k(t) == 'str': return s.rd(st, root, path)
        return Ref(root, path)

    def rvalue(s, st, r, dty):
        k = r[0]
        if k == 'use': return s.op(st, r[1])
        if k in ('ref', 'reborrow'): return s.mkref(st, r[1])
        if k == 'agg':
            kd = r[1]; fs = [s.op(st, o) for o in r[2]]
            if kd[0] == 'adt':
                t = s.T[kd[1]]
                if t['kind'] == 'enum': return Enum(kd[1], kd[2], fs)
                return Agg(kd[1], fs)
            if kd[0] == 'rawptr': return fs[0]
            return Agg(kd[1] if len(kd) > 1 and kd[0] != 'array' else dty, fs)
        if k == 'discr':
            root, path = s.place(st, r[1])
            v = s.ex(s.rd(st, root, path))
            if isinstance(v, Enum): return self_discr(s, v.ty, v.v)
            if isinstance(v, SEnum): return v.tag
            if v is None: return Opq(dty, z3.Int('moved'))
            if isinstance(v, Opq): return Opq(dty, z3.Int('discr'))
            raise Unsupported('discriminant of %r' % (v,))
        if k == 'bin': return s.binop(st, r[1], s.op(st, r[2]), s.op(st, r[3]), r[4] if len(r) > 4 else None, dty)
        if k == 'un':
            v = s.ex(s.op(st, r[2]))
            if isinstance(v, Opq): return Opq(dty, z3.Int('opqun'))
            if r[1] == 'Not':
                if isinstance(v, bool) or (isz(v) and z3.is_bool(v)): return Not(v)
                if isz(v) and z3.is_bv(v): return z3.simplify(~v)
                raise Unsupported('bitwise not')
            if r[1] == 'Neg': return simp(-v)
            if r[1] == 'PtrMetadata':
                w = s.rd(st, v.root, v.path) if isinstance(v, Ref) else v
                return s.models.seqlen(s, st, w)
            raise Unsupported('unary %s' % (r[1],))
        if k == 'cast':
            v = s.op(st, r[2]); kd = r[1]
            if kd.startswith('PointerCoercion(Unsize'):
                t = s.T[r[3]]
                if t['k'] == 'adt' and t['path'] == 'alloc::boxed::Box' and s.k(t['args'][0]) == 'dyn':
                    src = s.T[r[4]] if r[4] is not None else None
                    return DynV(r[3], src['args'][0] if src else None, v)
                return v
            if kd in ('IntToInt',):
                v = s.ex(v)
                if isinstance(v, Opq): return v
                return s.intcast(st, v, r[4], r[3])
            if kd in ('Transmute', 'BoxDerefTransmute', 'PtrToPtr') or kd.startswith('PointerCoercion') or 'Expose' in kd:
                if s.k(r[3]) == 'int': return Opq(r[3], z3.Int('ptrbits'))
                if isinstance(v, TokV): return Ref(('T', v.a))
                return v
            raise Unsupported('cast ' + kd)
        if k == 'repeat': raise Unsupported('array repeat')
        raise Unsupported('rvalue ' + k)

    def intcast(s, st, v, src, dst):
        b, sg = BITS[s.T[dst]['n']] if s.k(dst) == 'int' else (32, False)
        if isz(v) and z3.is_bv(v): v = z3.BV2Int(v)
        if isinstance(v, bool): v = int(v)
        if isz(v) and z3.is_bool(v): v = If(v, 1, 0)
        if b == 8 and not sg:
            return z3.BitVecVal(v % 256, 8) if isinstance(v, int) else z3.Int2BV(v, 8)
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if sg else (0, (1 << b) - 1)
        if isinstance(v, int):
            v &= (1 << b) - 1
            return v - (1 << b) if v > hi else v
        m = 1 << b
        sb, ssg = BITS[s.T[src]['n']] if src is not None and s.k(src) == 'int' else (32, False)
        slo, shi = (-(1 << (sb - 1)), (1 << (sb - 1)) - 1) if ssg else (0, (1 << sb) - 1)
        r = v
        if shi > hi: r = z3.If(v > hi, v - m, r) if sb == b else (v % m if not sg else (v + (1 << (b - 1))) % m - (1 << (b - 1)))
        if slo < lo and sb == b: r = z3.If(v < lo, v + m, r)
        elif slo < lo and not sg: r = v % m
        return r

    def binop(s, st, o, a, b, oty, dty):
        a = s.ex(a); b = s.ex(b)
        if isinstance(a, Opq) or isinstance(b, Opq): return Opq(dty, z3.Int('opqbin'))
        if isinstance(a, Ref) and isinstance(b, Ref):
            raise Unsupported('pointer comparison')
        if o == 'Eq': return eq(a, b)
        if o == 'Ne': return Not(eq(a, b))
        isb = lambda x: isinstance(x, bool) or (isz(x) and z3.is_bool(x))
        bv = (isz(a) and z3.is_bv(a)) or (isz(b) and z3.is_bv(b))
        if bv:
            if not isz(a): a = z3.BitVecVal(a, 8)
            if not isz(b): b = z3.BitVecVal(b, 8)
            f = {'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b, 'Lt': lambda: z3.ULT(a, b),
                 'Le': lambda: z3.ULE(a, b), 'Gt': lambda: z3.UGT(a, b), 'Ge': lambda: z3.UGE(a, b),
                 'Add': lambda: a + b, 'Sub': lambda: a - b}.get(o)
            if f is None: raise Unsupported('u8 ' + o)
            return simp(f())
        if isb(a) or isb(b):
            if o == 'BitAnd': return And(a, b)
            if o == 'BitOr': return Or(a, b)
            if o == 'BitXor': return simp(bval(a) != bval(b))
            a = If(a, 1, 0); b = If(b, 1, 0)
        if o in ('Lt', 'Le', 'Gt', 'Ge'):
            r = {'Lt': lambda: a < b, 'Le': lambda: a <= b, 'Gt': lambda: a > b, 'Ge': lambda: a >= b}[o]()
            return simp(r)
        bo = o.replace('WithOverflow', '').replace('Unchecked', '')
        tn = s.T[oty]['n'] if oty is not None and s.k(oty) == 'int' else 'usize'
        bits, sg = BITS[tn]
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        if bo == 'Add': r = a + b
        elif bo == 'Sub': r = a - b
        elif bo == 'Mul': r = a * b
        elif bo in ('Div', 'Rem') and isinstance(b, int) and b > 0 and not sg:
            r = (a // b if bo == 'Div' else a % b) if isinstance(a, int) else (a / b if bo == 'Div' else a % b)
            return simp(r)
        elif bo in ('Shl', 'Shr') and isinstance(b, int) and not sg:
            r = a * (1 << b) if bo == 'Shl' else ((a >> b) if isinstance(a, int) else a / (1 << b))
        elif bo in ('BitAnd', 'BitOr', 'BitXor') and isinstance(a, int) and isinstance(b, int):
            return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[bo]
        elif bo == 'BitAnd' and isinstance(b, int) and b == 1 and not sg: return simp(a % 2)
        else: raise Unsupported('binary ' + o)
        r = simp(r)
        ovf = Or(simp(r < lo), simp(r > hi))
        if o.endswith('WithOverflow'):
            return Agg(dty, [r, ovf])
        if o.endswith('Unchecked'): return r
        if ovf is False: return r
        if isinstance(r, int):
            r &= (1 << bits) - 1
            return r - (1 << bits) if r > hi else r
        return simp(If(ovf, r - (1 << bits) * 0 if False else self_wrap(r, lo, hi, bits), r))

    def assign(s, st, x):
        fn = st.stack[-1][0]
        dty = s.pty(fn, x[0])
        if x[1][0] == 'use' and not x[0][1] and x[1][1][0] in ('cp', 'mv'):
            st.loc[(len(st.stack) - 1, x[0][0])] = s.op(st, x[1][1]); return
        v = s.rvalue(st, x[1], dty)
        if not x[0][1]:
            st.loc[(len(st.stack) - 1, x[0][0])] = v
        else:
            root, path = s.place(st, x[0])
            s.wr(st, root, path, v)

    # ---------- execution
    def putoff(s):
        """what the contract put off until every path was done"""
        while s.c.later: st, f = s.c.later.pop(0); s.run(f(st))

    def run(s, states, ctx=None):
        """ctx = (depth, head, body): execute until the loop is left or its head is reached again.
        returns (backs, exits) for ctx, or [] at top level (paths end in returns handled by the contract)."""
        backs = []; exits = []
        work = list(states)[::-1]
        while work:
            st = work.pop()
            try:
                nxt = s.block(st)
            except Infeasible:
                continue
            except Unsupported as e:
                s.undecided(st, str(e))
                continue
            except Split as e:
                s.undecided(st, 'case not decided: %s' % str(e.c)[:80])
                continue
            for n in nxt[::-1]:
                r = s.arrive(n, ctx, backs, exits)
                if r: work.extend(r)
        return backs, exits

    def arrive(s, n, ctx, backs, exits):
        """state n is about to execute its current block; handle loop boundaries"""
        fn, bb = n.stack[-1][0], n.stack[-1][1]
        depth = len(n.stack) - 1
        if ctx and depth == ctx[0]:
            if bb == ctx[1]: backs.append(n); return None
            if bb not in ctx[2]: exits.append(n); return None
        elif ctx and depth < ctx[0]:
            exits.append(n); return None
        lp = fn.loops()
        if bb in lp and n.ctl != (depth, bb):
            try:
                outs = s.loop(n, depth, bb, lp[bb])
            except Infeasible:
                return None
            except Unsupported as e:
                s.undecided(n, str(e)); return None
            r = []
            for o in outs[::-1]:
                q = s.arrive(o, ctx, backs, exits)
                if q: r.extend(q)
            return r
        return [n]

    def undecided(s, st, msg):
        if s.muted:
            s.muted_unsupported = getattr(s, 'muted_unsupported', set()); s.muted_unsupported.add(msg)
        f = st.stack[-1][0] if st.stack else None
        where = '%s:%s' % (f.file, f.blocks[st.stack[-1][1]].get('line')) if f else ''
        rec = {'name': 'unsupported: ' + msg, 'kind': 'support', 'res': 'undecided', 'fn': f.path if f else '', 'line': where, 't': 0}
        if s.sink is not None and not s.muted: s.sink.append(rec)
        s.unsupported.append((msg, where))

    def goto(s, st, bb):
        f = st.stack[-1]
        st.stack = st.stack[:-1] + ((f[0], bb, f[2], f[3]),)
        st.ctl = None
        return st

    def block(s, st):
        fn, bb = st.stack[-1][0], st.stack[-1][1]
        s.stats['steps'] += 1
        if s.stats['steps'] % 64 == 0: s.tick()
        b = fn.blocks[bb]
        d = len(st.stack) - 1
        st.ctl = None
        for x in b['s']:
            if x[0] == 'dead': st.loc.pop((d, x[1]), None); continue
            if x[0] == 'intrinsic': continue
            s.assign(st, x)
        t = b['t']; k = t[0]
        if k == 'goto': return [s.goto(st, t[1])]
        if k == 'drop': return [s.goto(st, t[2])]
        if k == 'return': return s.ret(st)
        if k == 'unreachable': raise Infeasible()
        if k == 'switch': return s.switch(st, t)
        if k == 'assert':
            if t[3] == 'other': return [s.goto(st, t[4])]
            c = s.ex(s.op(st, t[1]))
            if isinstance(c, Opq): return [s.goto(st, t[4])]
            if not t[2]: c = Not(c)
            if s.c.panics_ok:
                d = s.decide(st, c)
                if d is False: raise Infeasible()
                s.assume(st, c)
            else:
                s.oblige(st, 'no_panic(%s)' % t[3], c, 'panic')
            return [s.goto(st, t[4])]
        if k == 'call': return s.call(st, t)
        raise Unsupported('terminator ' + k)

    def switch(s, st, t):
        v = s.ex(s.op(st, t[1]))
        if isinstance(v, Opq) and str(v.t) != 'moved': raise Unsupported('branch on an uninterpreted value')
        if isinstance(v, Opq) or v is None:
            # only drop glue looks at moved values: follow every edge (they re-join)
            tgt = t[3] if t[3] is not None else t[2][-1][1]
            return [s.goto(st, tgt)]
        if isinstance(v, bool): v = int(v)
        if isz(v) and z3.is_bv_value(v): v = v.as_long()
        if isinstance(v, int):
            for a, b in t[2]:
                if int(a) == v: return [s.goto(st, b)]
            if t[3] is None: raise Infeasible()
            return [s.goto(st, t[3])]
        if z3.is_bool(v):
            conds = []
            for a, b in t[2]: conds.append((v if int(a) else Not(v), b))
            other = And(*[Not(c) for c, _ in conds])
        else:
            kn = st.known.get(('=', v.get_id()))
            if kn is not None:
                for a, b in t[2]:
                    if int(a) == kn: return [s.goto(st, b)]
                return [s.goto(st, t[3])] if t[3] is not None else []
            conds = [(eq(v, int(a)), b) for a, b in t[2]]
            other = And(*[Not(c) for c, _ in conds])
        out = []
        if t[3] is not None: conds.append((other, t[3]))
        # unreachable targets need no feasibility check
        conds = [(c, b) for c, b in conds if st.stack[-1][0].blocks[b]['t'][0] != 'unreachable' or st.stack[-1][0].blocks[b]['s']]
        feas = []
        for c, b in conds:
            if c is False: continue
            if isz(c):
                kn = st.known.get(c.get_id())
                if kn is False: continue
                if kn is not True:
                    s.tick()
                    if s.sol.check(st.pc, c) == z3.unsat: continue
            feas.append((c, b))
        if len(feas) == 2 and s.c.merge and isz(feas[0][0]):
            r = s.diamond(st, feas)
            if r is not None: return r
        for i, (c, b) in enumerate(feas):
            n = st.copy() if i < len(feas) - 1 else st
            if c is not True: s.assume(n, c)
            out.append(s.goto(n, b))
        if len(out) > 1:
            s.stats['paths'] += len(out) - 1
            if s.stats['paths'] > s.maxpaths: raise Unsupported('too many paths')
        return out

    def chain(s, fn, bb):
        """blocks that follow one another from bb on without calls or branches"""
        out = [bb]; lp = fn.loops()
        while len(out) < 5:
            b = fn.blocks[out[-1]]
            if b['t'][0] not in ('goto', 'drop') or len(b['s']) > 8 or (out[-1] in lp): break
            n = b['t'][1] if b['t'][0] == 'goto' else b['t'][2]
            if n in out: break
            out.append(n)
        return out

    def diamond(s, st, feas):
        """an if whose branches only assign and join at once: both are run and the states merged"""
        fn = st.stack[-1][0]
        ca, cb = s.chain(fn, feas[0][1]), s.chain(fn, feas[1][1])
        j = next((x for x in ca if x in cb), None)
        if j is None: return None
        base = st.copy()
        r = []
        for c, b in feas:
            n = st.copy(); s.assume(n, c); s.goto(n, b)
            while n.stack[-1][1] != j:
                q = s.block(n)
                if len(q) != 1: raise Unsupported('branch in a diamond')
                n = q[0]
            r.append(n)
        m = s.merge(base, r[0], r[1], feas[0][0])
        if m is None:
            s.stats['paths'] += 1
            return r
        return [s.goto(m, j)]

    def merge(s, base, a, b, c):
        """one state standing for a where c holds and for b otherwise; None when they differ in more than scalars"""
        if a.stack[:-1] != b.stack[:-1] or a.epoch != b.epoch or a.nalloc != b.nalloc or a.ev != b.ev or a.scopes != b.scopes: return None
        def mv(x, y):
            if x is y: return x
            if type(x) is SymV and type(y) is SymV and x.name == y.name: return x
            if isinstance(x, (bool, int)) and isinstance(y, (bool, int)) and type(x) is type(y):
                return x if x == y else If(c, x, y)
            if (isz(x) or isinstance(x, (int, bool))) and (isz(y) or isinstance(y, (int, bool))):
                if isz(x) and isz(y):
                    if x.eq(y): return x
                    if x.sort() != y.sort(): raise LookupError
                t = If(c, x, y)
                if isz(t):
                    s.keep.append(t)
                    if t.sort() == Str: s.S.touch(t)
                    elif t.sort() == I and t.get_id() not in s.rng: s.rng[t.get_id()] = None
                return t
            if type(x) is SymV: x = s.ex(x)
            if type(y) is SymV: y = s.ex(y)
            if type(x) is not type(y): raise LookupError
            if isinstance(x, Agg) and x.ty == y.ty and len(x.fs) == len(y.fs): return Agg(x.ty, [mv(p, q) for p, q in zip(x.fs, y.fs)])
            if isinstance(x, Enum) and x.ty == y.ty and x.v == y.v: return Enum(x.ty, x.v, [mv(p, q) for p, q in zip(x.fs, y.fs)])
            if isinstance(x, Ref):
                from . import loops
                if loops.refeq(x, y): return x
            if isinstance(x, RcV) and x.ty == y.ty and x.a.eq(y.a): return x
            if isinstance(x, FnV) and x.ty == y.ty: return x
            if x == y and not isz(x): return x
            raise LookupError
        m = base.copy()
        try:
            loc = {}
            for k in a.loc:
                if k not in b.loc: continue
                try: loc[k] = mv(a.loc[k], b.loc[k])
                except LookupError:
                    if k[0] == len(a.stack) - 1 and k[1] not in a.stack[-1][0].live()[a.stack[-1][1]]: continue
                    raise
            if set(a.cells) != set(b.cells): return None
            cells = {k: (a.cells[k][0], mv(a.cells[k][1], b.cells[k][1]), a.cells[k][2]) for k in a.cells}
            tok = {k: mv(a.tok[k], b.tok[k]) for k in a.tok}
            gh = {k: mv(a.ghost[k], b.ghost.get(k)) for k in a.ghost}
        except LookupError: return None
        n0 = len(base.pc)
        if a.pc[:n0] != base.pc or b.pc[:n0] != base.pc: return None
        for x in a.pc[n0 + 1:]: s.assume(m, Implies(c, x))
        for x in b.pc[n0 + 1:]: s.assume(m, Implies(Not(c), x))
        m.loc = loc; m.cells = cells; m.tok = tok; m.ghost = gh
        s.stats['merged'] = s.stats.get('merged', 0) + 1
        return m

    def ret(s, st):
        d = len(st.stack) - 1
        v = st.loc.get((d, 0))
        fr = st.stack[-1]
        if d == 0 or fr[3] == 'END':
            s.by_case(st, lambda x: s.c.on_return(s, x, v))
            return []
        for k in [k for k in st.loc if k[0] == d]: del st.loc[k]
        st.stack = st.stack[:-1]
        if callable(fr[3]):                     # native continuation
            out = []
            s.by_case(st, lambda x: out.extend(fr[3](s, x, v)))
            return out
        root, path = fr[2]
        s.wr(st, root, path, v)
        return [s.goto(st, fr[3])]

    def push(s, st, fn, args, dest, retbb):
        if len(st.stack) > 40: raise Unsupported('call depth')
        for f in st.stack:
            if f[0] is fn: raise Unsupported('recursion of ' + fn.path)
        st.stack = st.stack + ((fn, 0, dest, retbb),)
        d = len(st.stack) - 1
        if fn.spread is not None and len(args) >= 1 and fn.argc >= fn.spread:
            # rust-call closures: last argument is a tuple spread over the remaining locals
            pass
        for i, a in enumerate(args): st.loc[(d, i + 1)] = a
        s.stats['inlined'][fn.path] = s.stats['inlined'].get(fn.path, 0) + 1
        st.ctl = None
        return [st]

    def call(s, st, t):
        fty, fop, args, dest, target = t[1], t[2], t[3], t[4], t[5]
        ft = s.T[fty]
        vals = [s.op(st, a) for a in args]
        argtys = t[6]; dty = t[7]
        if ft['k'] == 'fndef':
            return s.models.call(s, st, ft, vals, argtys, dty, dest, target)
        raise Unsupported('call through ' + ft['k'])

    def finish(s, st, dest, target, v):
        """store the result of a native call and continue"""
        if target is None: raise Infeasible()
        if not dest[1]: st.loc[(len(st.stack) - 1, dest[0])] = v
        else:
            root, path = s.place(st, dest)
            s.wr(st, root, path, v)
        return s.goto(st, target)

    # ---------- structural equality of values as a formula
    def eqv(s, st, a, b):
        if a is b: return True
        if type(a) is SymV and type(b) is SymV and a.name == b.name: return True
        a = s.ex(a); b = s.ex(b)
        if isinstance(a, Ref) and not isinstance(b, Ref): a = s.ex(s.rd(st, a.root, a.path))
        if isinstance(b, Ref) and not isinstance(a, Ref): b = s.ex(s.rd(st, b.root, b.path))
        if isinstance(a, Ref) and isinstance(b, Ref):
            return s.eqv(st, s.rd(st, a.root, a.path), s.rd(st, b.root, b.path))
        if isinstance(a, RcV) and isinstance(b, RcV): return eq(a.a, b.a)
        if isinstance(a, Agg) and isinstance(b, Agg):
            if len(a.fs) != len(b.fs): return False
            return And(*[s.eqv(st, x, y) for x, y in zip(a.fs, b.fs)])
        if isinstance(a, (Enum, SEnum)) and isinstance(b, (Enum, SEnum)):
            if isinstance(a, SEnum) and isinstance(b, SEnum) and a.name == b.name and a.name != 'elem' and not a.over and not b.over: return True
            ta = a.v if isinstance(a, Enum) else a.tag
            tb = b.v if isinstance(b, Enum) else b.tag
            # resolve tags known on this path
            for e in (a, b):
                pass
            ka = ta if isinstance(ta, int) else st.known.get(('=', ta.get_id()))
            kb = tb if isinstance(tb, int) else st.known.get(('=', tb.get_id()))
            te = eq(ta, tb)
            if te is False: return False
            vs = [ka] if ka is not None else [kb] if kb is not None else range(len(s.T[a.ty]['variants']))
            cs = [te]
            for v in vs:
                fs = s.T[a.ty]['variants'][v]['fields']
                if not fs: continue
                if isinstance(a, Enum) and a.v != v or isinstance(b, Enum) and b.v != v: continue
                xa = a.fs if isinstance(a, Enum) else [s.payload(a, v, i) for i in range(len(fs))]
                xb = b.fs if isinstance(b, Enum) else [s.payload(b, v, i) for i in range(len(fs))]
                if ka is None and kb is None and s.depthy(xa, xb): raise Unsupported('equality of two unknown enums')
                cs.append(Implies(eq(ta, v), And(*[s.eqv(st, x, y) for x, y in zip(xa, xb)])))
            return And(*cs)
        if isinstance(a, VecV) and isinstance(b, VecV):
            return And(eq(a.len, b.len), *[eq(x, y) for x, y in zip(a.arrs, b.arrs)])
        if isinstance(a, MapV) and isinstance(b, MapV):
            return And(eq(a.has, b.has), *[eq(x, y) for x, y in zip(a.arrs, b.arrs)])
        if isinstance(a, Opq) and isinstance(b, Opq): return eq(a.t, b.t)
        if isinstance(a, SymV) and isinstance(b, SymV): return eq(s.opaque_term(a), s.opaque_term(b))
        if isz(a) or isz(b) or isinstance(a, (int, bool)): return eq(a, b)
        if isinstance(a, TokV) and isinstance(b, TokV): return eq(a.a, b.a)
        raise Unsupported('equality of %r and %r' % (a, b))

    def depthy(s, xa, xb):
        return False

    # loops are in loops.py
    def loop(s, st, depth, head, body):
        from . import loops
        return loops.analyse(s, st, depth, head, body)


def self_discr(s, ty, v):
    return v


def self_wrap(r, lo, hi, bits):
    m = 1 << bits
    return z3.If(r > hi, r - m, r + m)
