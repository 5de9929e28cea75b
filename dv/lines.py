"""C12: lines and columns of a range.  The matches of the line-break regex in a text, in order, are the specification's
line breaks; that the regex itself denotes CRLF, LF and CR is decided by enumeration of short texts (labelled)."""
from .contract import *
from .strs import *
import re as _re


def newline_regex_ok(src):
    """the pattern splits every text over CR, LF and two other characters, up to length 6, the way the specification does"""
    import itertools
    try: rx = _re.compile(src)
    except Exception: return False
    for n in range(7):
        for t in itertools.product('\r\na ', repeat=n):
            t = ''.join(t); out = []; i = 0
            while i < n:
                if t[i] == '\r' and t[i + 1:i + 2] == '\n': out.append((i, i + 2)); i += 2
                elif t[i] in '\r\n': out.append((i, i + 1)); i += 1
                else: i += 1
            if [m.span() for m in rx.finditer(t)] != out: return False
    return True


class LineFn(FnContract):
    id = 'C12'
    def setup(s, e, st, args):
        pc = models.der(e, st, args[0]); r = models.der(e, st, args[s.rarg])
        s.p = s.cget(e, pc, 'parser').a
        s.src = e.S.touch(psource(s.p))
        s.a, s.b = ival(e.ex(r.fs[0])), ival(e.ex(r.fs[1]))
        n = e.S.len(s.src)
        e.assume(st, And(simp(s.a <= s.b), simp(s.b <= n)))
        e.assume(st, And(bval(e.S.isb(s.src, s.a)), bval(e.S.isb(s.src, s.b))))
        lit = None
        for f in e.p.fns:
            if '__static_ref_initialize' in f.path and 'parser_context::NEWLINES' in f.path:
                lit = models.static_regex(e, f.path.split(' as ')[0] + ' as core::ops::deref::Deref>')
        if lit is None: raise Unsupported('the line break regex is not where it was')
        s.lit = lit
        s.k = models.rxmk(e.S.lit(lit))
        s.notes.append('the line break regex denotes CRLF | LF | CR: enumerated over all texts of at most 6 characters from CR, LF, a, space (bounded)')
        s.more(e, st)
    rarg = 1
    def more(s, e, st): pass
    def rxok(s, e, st): e.oblige(st, 'a line break is CRLF, LF or CR', newline_regex_ok(s.lit), 'bounded')
    def brk(s, e, i, lim):
        """end of the i-th line break (from 0) before position lim"""
        return models.rxei(s.k, s.text(e, lim), i)
    def text(s, e, lim): return e.S.sub(s.src, 0, lim)
    def count(s, e, lim): return models.rxall(e, s.k, s.text(e, lim))


def within(s, e, st, v):
    for i in (0, 1):
        x = ival(e.ex(v.fs[i]))
        e.oblige(st, 'lines and columns count from one, up to two more than the text has bytes', And(simp(x >= 1), simp(x <= e.S.len(s.src) + 2)))


class Lines(LineFn):
    path = 'parser_context::ParserContext::get_lines'
    def post(s, e, st, v):
        s.rxok(e, st)
        within(s, e, st, v)
        e.oblige(st, 'the first line is one more than the line breaks before the start', eq(e.ex(v.fs[0]), simp(s.count(e, s.a) + 1)))
        e.oblige(st, 'the last line is one more than the line breaks before the end', eq(e.ex(v.fs[1]), simp(s.count(e, s.b) + 1)))


class Columns(LineFn):
    path = 'parser_context::ParserContext::get_columns'
    def more(s, e, st):
        # f: how many of the line breaks before the end lie at or before the start
        s.n = s.count(e, s.b)
        s.f = z3.Int('breaks_before_start'); e.keep.append(s.f)
        s.f1 = simp(s.f - 1); s.n1 = simp(s.n - 1)
        e.assume(st, And(s.f >= 0, s.f <= s.n))
        e.assume(st, And(z3.Implies(s.f > 0, s.brk(e, s.f1, s.b) <= s.a), z3.Implies(s.f < s.n, s.brk(e, s.f, s.b) > s.a)))
    def line(s, e, cnt): return z3.If(cnt > 0, s.brk(e, cnt - 1, s.b), z3.IntVal(0))
    def col1(s, e): return s.a - s.line(e, s.f) + 1
    def loop_cands(s, e, entry, hd, head, W, M):
        out = []
        its = iters(W, hd)
        leaves = [p for p, (k, v, t) in M.items() if k == 'leaf']
        for ip, it in its:
            for p in leaves:
                if p[:-1] == ip: continue
                out.append((('the line starts after the last break seen', p), lambda st, p=p, ip=ip: ival(W.get(st, p)) == s.line(e, ival(W.get(st, ip).i))))
                out.append((('the first column is known once a break after the start was seen', p), lambda st, p=p, ip=ip: ival(W.get(st, p)) == z3.If(ival(W.get(st, ip).i) > s.f, s.col1(e), z3.IntVal(0))))
        return out
    def post(s, e, st, v):
        s.rxok(e, st)
        within(s, e, st, v)
        c1 = s.col1(e); c2 = s.b - s.line(e, s.n) + 1
        e.oblige(st, 'the first column is one more than the distance from the start of its line', eq(e.ex(v.fs[0]), c1))
        e.oblige(st, 'the last column is one more than the distance from the start of its line, and at least the first', eq(e.ex(v.fs[1]), z3.If(c1 > c2, c1, c2)))


class Both(LineFn):
    path = 'parser_context::ParserContext::get_lines_and_columns'
    def override2(s, e, st, c):
        s.st = st
        for f in ('get_lines', 'get_columns'):
            if c.rp == 'parser_context::ParserContext::' + f:
                r = models.der(e, st, c.vals[1]); pc = models.der(e, st, c.vals[0])
                e.oblige(st, 'it is asked about the same text', eq(s.cget(e, pc, 'parser').a, s.p))
                return Agg(c.dty, [s.part(e, f, i, e.ex(r.fs[0]), e.ex(r.fs[1])) for i in (0, 1)])
    def part(s, e, f, i, a, b):
        g = z3.Function('%s%d' % (f, i), I, I, I, I)(s.p, ival(a), ival(b)); e.keep.append(g)
        e.assume(s.st, And(g >= 1, g <= e.S.len(s.src) + 2))   # the contracts of Lines and Columns
        return g
    def post(s, e, st, v):
        s.st = st
        l, c = e.ex(v.fs[0]), e.ex(v.fs[1])
        for n, x, f in (('lines', l, 'get_lines'), ('columns', c, 'get_columns')):
            for i in (0, 1): e.oblige(st, 'the %s are those of the range' % n, eq(e.ex(x.fs[i]), s.part(e, f, i, s.a, s.b)))


class ErrorText(LineFn):
    """Error: FILE@[LINE(-LINE):COLUMN(-COLUMN)]: MESSAGE"""
    path = 'parser_context::ParserContext::get_error_as_string'
    rarg = 2
    def override(s, e, st, c):
        s.st = st
        if c.rp in ['parser_context::ParserContext::' + x for x in ('get_lines', 'get_columns', 'get_lines_and_columns')]:
            r = models.der(e, st, c.vals[1]); pc = models.der(e, st, c.vals[0])
            e.oblige(st, 'it is asked about the same text', eq(s.cget(e, pc, 'parser').a, s.p))
            P = lambda f: [s.part(e, f, i, e.ex(r.fs[0]), e.ex(r.fs[1])) for i in (0, 1)]
            n = c.rp.split('::')[-1]
            if n == 'get_lines_and_columns':
                ts = e.T[c.dty]['ts']
                return Agg(c.dty, [Agg(ts[0], P('get_lines')), Agg(ts[1], P('get_columns'))])
            if n in ('get_lines', 'get_columns'): return Agg(c.dty, P(n))
        return super().override(e, st, c)
    part = Both.part
    def post(s, e, st, v):
        s.st = st
        L = [s.part(e, 'get_lines', i, s.a, s.b) for i in (0, 1)]; C = [s.part(e, 'get_columns', i, s.a, s.b) for i in (0, 1)]
        S = e.S; lit = S.lit
        def span(x):
            a, b = (e.S.touch(models.itoa(ival(y))) for y in x)
            return x[0] == x[1], a, S.cat(S.cat(a, lit('-')), b)
        le, l1, l2 = span(L); ce, c1, c2 = span(C)
        dl, dc = e.case(st, le), e.case(st, ce)
        t = lit('Error: ')
        for x in (S.touch(pfile(s.p)), lit('@['), l1 if dl else l2, lit(':'), c1 if dc else c2, lit(']: '), models.sv(e, st, s.args[1])): t = S.cat(t, x)
        e.oblige(st, 'the message carries file, lines, columns and text', eq(v, t))


ALL = [Lines, Columns, Both, ErrorText]
