"""Strings as an uninterpreted sort with ground axioms, instantiated when a term is created.

A string is a sequence of bytes (UTF-8).  slen = byte length, ssub(s,a,b) = bytes a..b, cat = concatenation,
isb(s,i) = byte i is a char boundary (also true for every i >= slen, which is never relied upon without a bound),
clen(s,i) = byte length of the character starting at boundary i < slen.
"""
import z3

Str = z3.DeclareSort('Str')
Int = z3.IntSort(); Bool = z3.BoolSort()
slen = z3.Function('slen', Str, Int)
ssub = z3.Function('ssub', Str, Int, Int, Str)
cat = z3.Function('cat', Str, Str, Str)
isb = z3.Function('isb', Str, Int, Bool)
clen = z3.Function('clen', Str, Int, Int)
itoa = z3.Function('itoa', Int, Str)
EMPTY = z3.Const('lit:""', Str)


def _i(x): return x if isinstance(x, z3.ExprRef) else z3.IntVal(x)


class Strs:
    def __init__(s, facts):
        s.facts = facts; s.lits = {}; s.rev = {}
        s.seen = set()
        s.lits[''] = EMPTY; s.rev[EMPTY.get_id()] = ''
        facts.append(slen(EMPTY) == 0)
        s.keep = []

    def lit(s, text):
        if text in s.lits: return s.lits[text]
        c = z3.Const('lit:' + repr(text), Str)
        n = len(text.encode())
        s.facts.append(slen(c) == n)
        for t, o in s.lits.items():
            if len(t.encode()) == n: s.facts.append(o != c)
        s.lits[text] = c; s.rev[c.get_id()] = text
        return c

    def text(s, t):
        """python text of a literal term or None"""
        return s.rev.get(t.get_id())

    def touch(s, t):
        """facts about a fresh atomic string"""
        if t.get_id() in s.seen: return t
        s.seen.add(t.get_id()); s.keep.append(t)
        s.facts.append(slen(t) >= 0)
        s.facts.append(slen(t) <= 2 ** 62)
        s.facts.append(isb(t, z3.IntVal(0)))
        s.facts.append(isb(t, slen(t)))
        s.facts.append((slen(t) == 0) == (t == EMPTY))
        return t

    def len(s, t):
        tx = s.text(t)
        if tx is not None: return len(tx.encode())
        return slen(t)

    def root(s, t):
        """(root, offset) of a (nested) substring"""
        if z3.is_app(t) and t.decl().eq(ssub):
            return t.arg(0), t.arg(1), t.arg(2)
        return None

    def sub(s, t, a, b):
        """bytes a..b of t; callers establish 0<=a<=b<=len"""
        if isinstance(a, int) and isinstance(b, int) and a == b: return EMPTY
        tx = s.text(t)
        if tx is not None and isinstance(a, int) and isinstance(b, int):
            try: return s.lit(tx.encode()[a:b].decode())
            except UnicodeDecodeError: pass
        a = _i(a); b = _i(b)
        r = s.root(t)
        if r is not None:
            base = r[1]
            a = z3.simplify(base + a); b = z3.simplify(base + b); t = r[0]
        else:
            a = z3.simplify(a); b = z3.simplify(b)
        if a.eq(b): return EMPTY
        if z3.is_int_value(a) and a.as_long() == 0 and b.eq(z3.simplify(slen(t))): return t
        u = ssub(t, a, b)
        if u.get_id() not in s.seen:
            s.touch(u)
            ok = z3.And(0 <= a, a <= b, b <= slen(t))
            s.facts.append(z3.Implies(ok, slen(u) == b - a))
            s.facts.append(z3.Implies(z3.And(a == 0, b == slen(t)), u == t))
            s.facts.append(z3.Implies(a == b, u == EMPTY))
        return u

    def cat(s, x, y):
        if x.eq(EMPTY): return y
        if y.eq(EMPTY): return x
        tx, ty = s.text(x), s.text(y)
        if tx is not None and ty is not None: return s.lit(tx + ty)
        # right-normalise:  cat(cat(a,b),c) stays left-nested (folds push on the right)
        if z3.is_app(y) and y.decl().eq(cat):
            return s.cat(s.cat(x, y.arg(0)), y.arg(1))
        u = cat(x, y)
        if u.get_id() not in s.seen:
            s.touch(u)
            s.facts.append(slen(u) == slen(x) + slen(y))
            s.facts.append(z3.Implies(x == EMPTY, u == y))
            s.facts.append(z3.Implies(y == EMPTY, u == x))
        return u

    def isb(s, t, i):
        """char-boundary predicate, rewritten to the root string"""
        i = _i(i)
        tx = s.text(t)
        r = s.root(t)
        if r is not None:
            return s.isb_(r[0], z3.simplify(r[1] + i))
        return s.isb_(t, z3.simplify(i))

    def isb_(s, t, i):
        return isb(t, i)

    def clen(s, t, i):
        """byte length of the character at boundary i of t (requires i < len)"""
        i = _i(i)
        r = s.root(t)
        if r is not None: t = r[0]; i = r[1] + i
        i = z3.simplify(i)
        u = clen(t, i)
        if u.get_id() not in s.seen:
            s.seen.add(u.get_id()); s.keep.append(u)
            s.facts.append(z3.And(1 <= u, u <= 4))
            s.facts.append(z3.Implies(z3.And(isb(t, i), 0 <= i, i < slen(t)),
                                      z3.And(i + u <= slen(t), isb(t, z3.simplify(i + u)))))
            # no boundary strictly inside a character
            for k in (1, 2, 3):
                s.facts.append(z3.Implies(z3.And(isb(t, i), 0 <= i, i < slen(t), u > k), z3.Not(isb(t, z3.simplify(i + k)))))
        return u

    def starts_with(s, t, p):
        n = s.len(p)
        if isinstance(n, int) and n == 0: return True
        u = s.sub(t, 0, n)
        # a prefix of valid UTF-8 that is itself valid UTF-8 ends on a char boundary
        f = z3.And(_i(n) <= slen(t), u == p)
        s.facts.append(z3.Implies(f, s.isb(t, n)))
        return f
