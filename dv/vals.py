"""Symbolic values.  Immutable; `ty` is an index into the dumped type table."""
import z3


class Agg:            # struct / tuple / closure / array (concrete length)
    __slots__ = ('ty', 'fs')
    def __init__(s, ty, fs): s.ty = ty; s.fs = tuple(fs)
    def __repr__(s): return 'Agg%r' % (s.fs,)


class Enum:           # known variant
    __slots__ = ('ty', 'v', 'fs')
    def __init__(s, ty, v, fs): s.ty = ty; s.v = v; s.fs = tuple(fs)
    def __repr__(s): return 'Enum%d%r' % (s.v, s.fs)


class SymV:           # symbolic value of any type, expanded on demand (deterministically by name)
    __slots__ = ('ty', 'name', 'lo', 'hi', 'aux')
    def __init__(s, ty, name, lo=0, hi=0, aux=None): s.ty = ty; s.name = name; s.lo = lo; s.hi = hi; s.aux = aux
    def __repr__(s): return 'SymV(%s)' % s.name


class SEnum:          # symbolic enum: tag term (python int when fixed), payload created lazily from name
    __slots__ = ('ty', 'tag', 'name', 'lo', 'hi', 'over')
    def __init__(s, ty, tag, name, lo, hi, over=None):
        s.ty = ty; s.tag = tag; s.name = name; s.lo = lo; s.hi = hi; s.over = over or {}
    def __repr__(s): return 'SEnum(%s)' % s.name


class Ref:
    __slots__ = ('root', 'path')
    def __init__(s, root, path=()): s.root = root; s.path = tuple(path)
    def __repr__(s): return 'Ref(%s%s)' % (s.root, s.path)


class RcV:            # address of a heap cell; inner = type index of the pointee
    __slots__ = ('a', 'ty')
    def __init__(s, a, ty): s.a = a; s.ty = ty
    def __repr__(s): return 'Rc(%s)' % s.a


class VecV:           # len + one z3 array per leaf of the element type
    __slots__ = ('ty', 'et', 'len', 'arrs')
    def __init__(s, ty, et, n, arrs): s.ty = ty; s.et = et; s.len = n; s.arrs = tuple(arrs)
    def __repr__(s): return 'Vec(%s)' % (s.len,)


class MapV:           # has: Array(Str,Bool); one array per leaf of the value type
    __slots__ = ('ty', 'vt', 'has', 'arrs')
    def __init__(s, ty, vt, has, arrs): s.ty = ty; s.vt = vt; s.has = has; s.arrs = tuple(arrs)


class DynV:           # Box<dyn Trait> with a known concrete type
    __slots__ = ('ty', 'cty', 'val')
    def __init__(s, ty, cty, val): s.ty = ty; s.cty = cty; s.val = val


class TokV:           # the dyn Token stored in the heap at address a (view of the token region)
    __slots__ = ('a',)
    def __init__(s, a): s.a = a


class SymMatcher:     # unknown dyn Matcher identified by an address term
    __slots__ = ('a',)
    def __init__(s, a): s.a = a


class Opq:            # value of a type we do not interpret
    __slots__ = ('ty', 't')
    def __init__(s, ty, t): s.ty = ty; s.t = t
    def __repr__(s): return 'Opq(%s)' % s.t


class FnV:
    __slots__ = ('ty',)
    def __init__(s, ty): s.ty = ty


class SplitV:         # str::split(sep) not yet collected
    __slots__ = ('s', 'sep')
    def __init__(s, a, b): s.s = a; s.sep = b


class It:             # iterator over a sequence: kind, source Ref or value, index, end, reversed, closure
    __slots__ = ('ty', 'kind', 'src', 'i', 'n', 'extra')
    def __init__(s, ty, kind, src, i, n, extra=None):
        s.ty = ty; s.kind = kind; s.src = src; s.i = i; s.n = n; s.extra = extra
    def __repr__(s): return 'It(%s,%s,%s)' % (s.kind, s.i, s.n)


class Fmt:            # fmt::Arguments / Argument
    __slots__ = ('tpl', 'args')
    def __init__(s, tpl, args): s.tpl = tpl; s.args = args


UNIT = None


class Split(Exception):
    """the specification has a case distinction that the path leaves open"""
    def __init__(s, c): s.c = c


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass
