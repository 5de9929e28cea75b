"""MIR of the current tree as dumped by mirdump, with type helpers and liveness/loop analysis."""
import json, re


class Fn:
    __slots__ = ('d', 'key', 'path', 'name', 'trait', 'self', 'local', 'argc', 'locals', 'blocks', 'names',
                 'spread', '_live', '_loops', '_addr', 'file', 'line', 'closure', '_rpo', '_promo')

    def __init__(s, d):
        s.d = d
        for k in ('key', 'path', 'name', 'trait', 'self', 'local', 'argc', 'locals', 'blocks', 'names', 'spread',
                  'file', 'line', 'closure'):
            setattr(s, k, d.get(k))
        s._live = s._loops = s._addr = s._rpo = None

    def succ(s, b):
        t = s.blocks[b]['t']
        k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch':
            r = [x[1] for x in t[2]]
            if t[3] is not None: r.append(t[3])
            return r
        if k == 'drop': return [t[2]]
        if k == 'assert': return [t[4]]
        if k == 'call': return [] if t[5] is None else [t[5]]
        return []

    def rpo(s):
        if s._rpo is None:
            seen = set(); order = []
            st = [(0, iter(s.succ(0)))]; seen.add(0)
            while st:
                b, it = st[-1]
                for x in it:
                    if x not in seen:
                        seen.add(x); st.append((x, iter(s.succ(x)))); break
                else:
                    order.append(b); st.pop()
            s._rpo = order[::-1]
        return s._rpo

    def loops(s):
        """head -> set(body blocks) of natural loops"""
        if s._loops is not None: return s._loops
        rpo = s.rpo(); idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for x in s.succ(b): preds[x].append(b)
        idom = {rpo[0]: rpo[0]}
        ch = True
        def inter(a, b):
            while a != b:
                while idx[a] > idx[b]: a = idom[a]
                while idx[b] > idx[a]: b = idom[b]
            return a
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                n = ps[0]
                for p in ps[1:]: n = inter(n, p)
                if idom.get(b) != n: idom[b] = n; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == rpo[0]: return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for h in s.succ(b):
                if dom(h, b):
                    body = loops.setdefault(h, {h})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x); st.extend(preds[x])
                elif idx[h] <= idx[b]:
                    raise Exception('irreducible control flow in ' + s.key)
        s._loops = loops
        return loops

    def live(s):
        """block -> set(locals live at entry); locals whose address is taken count as live until StorageDead"""
        if s._live is not None: return s._live
        n = len(s.blocks)
        gen = []; kill = []; addr = set()
        def pl_use(p, g, k, isdef=False):
            if isdef and not p[1]:
                return
            if p[0] not in k: g.add(p[0])
            for e in p[1]:
                if e[0] == 'i' and e[1] not in k: g.add(e[1])
        def op_use(o, g, k):
            if o[0] in ('cp', 'mv'): pl_use(o[1], g, k)
        def rv_use(r, g, k):
            t = r[0]
            if t == 'use': op_use(r[1], g, k)
            elif t in ('ref', 'reborrow'):
                pl_use(r[1], g, k)
                if not any(e[0] == '*' for e in r[1][1]): addr.add(r[1][0])
            elif t == 'cast': op_use(r[2], g, k)
            elif t == 'bin': op_use(r[2], g, k); op_use(r[3], g, k)
            elif t == 'un': op_use(r[2], g, k)
            elif t == 'discr': pl_use(r[1], g, k)
            elif t == 'agg':
                for o in r[2]: op_use(o, g, k)
            elif t == 'repeat': op_use(r[1], g, k)
        for b in s.blocks:
            g = set(); k = set()
            for st in b['s']:
                if st[0] == 'dead': k.add(st[1]); continue
                if st[0] == 'intrinsic': continue
                rv_use(st[1], g, k)
                pl_use(st[0], g, k, True)
                if not st[0][1]: k.add(st[0][0])
            t = b['t']
            if t[0] == 'switch': op_use(t[1], g, k)
            elif t[0] == 'assert': op_use(t[1], g, k)
            elif t[0] == 'call':
                op_use(t[2], g, k)
                for o in t[3]: op_use(o, g, k)
                pl_use(t[4], g, k, True)
                if not t[4][1]: k.add(t[4][0])
            gen.append(g); kill.append(k)
        live = [set() for _ in range(n)]
        ch = True
        order = s.rpo()[::-1]
        while ch:
            ch = False
            for b in order:
                out = set()
                for x in s.succ(b): out |= live[x]
                if s.blocks[b]['t'][0] == 'return': out.add(0)
                i = gen[b] | (out - kill[b])
                if i != live[b]: live[b] = i; ch = True
        s._live = live; s._addr = addr
        return live

    def addr_taken(s):
        s.live(); return s._addr


class Prog:
    def __init__(s, path):
        d = json.load(open(path))
        s.T = d['types']
        for t in s.T:
            if t['k'] == 'adt' and t['path'].startswith('regex::') and not t['path'].endswith('::Match'): t['opaque'] = True; t['variants'] = []
        s.fns = [Fn(f) for f in d['fns']]
        s.by = {f.key: f for f in s.fns}
        s.sidx = {}
        for i, t in enumerate(s.T): s.sidx.setdefault(t['s'], i)
        s.impl = {}
        for f in s.fns:
            if f.trait and f.self: s.impl.setdefault((f.trait, f.name, base(f.self)), f)
        s.sk = {}

    def find(s, pat, one=True):
        r = [f for f in s.fns if re.fullmatch(pat, f.path) and '::promoted[' not in f.key]
        if one:
            if len(r) != 1: raise LookupError('%d functions match %s' % (len(r), pat))
            return r[0]
        return r

    def ty(s, text):
        """type index by printed form"""
        return s.sidx[text]

    def tyf(s, pat):
        r = [i for i, t in enumerate(s.T) if re.fullmatch(pat, t['s'])]
        if not r: raise LookupError('no type ' + pat)
        return r[0]


def base(sname):
    """strip generic arguments of a printed type"""
    out = ''; d = 0
    for i, c in enumerate(sname):
        if c == '<': d += 1
        elif c == '>' and not (i and sname[i - 1] == '-'): d -= 1
        elif d == 0: out += c
    return out.replace('::::', '::').rstrip(':')
