"""Which contracts decide which property."""
import importlib

MODULES = ['simple', 'text', 'tree', 'program', 'tokens', 'scopes', 'lines', 'pin', 'build', 'script', 'ctxfns', 'fetch', 'macros', 'compile', 'grammar']
TITLES = {}


def contracts():
    out = {}
    for m in MODULES:
        mod = importlib.import_module('dv.' + m)
        for c in mod.ALL:
            for pid in ([c.id] if isinstance(c.id, str) else c.id): out.setdefault(pid, []).append((m, c.__name__))
        byname = {c.__name__: c for c in mod.ALL}
        mod.BYNAME = byname
    return out


def get(m, n):
    mod = importlib.import_module('dv.' + m)
    for c in mod.ALL:
        if c.__name__ == n: return c
    raise LookupError(n)


TRUSTED = [
    'rustc nightly (MIR construction) and tools/mirdump, which writes that MIR out unchanged; unwinding paths are dropped (panic=abort)',
    'extract/dv_macros.rs: one module appended to the compiled copy of the crate, which invokes every arm of the public macros so that their expansions are compiled and verified; it changes no existing item',
    'extract/dv_std.rs: one module appended likewise, with reference definitions (plain loops over Iterator::next) of find, find_map, any, all, position, for_each, fold, last, count, collect on adapters and Vec::extend; calls of those standard methods are verified against these definitions',
    'dv/core.py and dv/loops.py: the verification-condition generator (symbolic execution of MIR, loop invariants checked for initiation and consecution)',
    'dv/models.py: contracts assumed for the standard library (String, str, Vec, HashMap, Option, Result, Rc, RefCell, iterators, fmt) and for the regex and lazy_static crates',
    'z3 as the deciding back end; strings are an uninterpreted sort with ground axioms (length, substring, concatenation, character boundaries)',
    'RefCell borrow conflicts are not modelled; Rc cells are compared by address; drop has no effect; memory and stack exhaustion ignored',
    'child matchers (dyn Matcher) are unknown: any result of any shape, existing tokens and contexts unchanged, scope stack depth restored, new tokens are fresh',
]
