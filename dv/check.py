"""check PROPERTY: verify the contracts of a property against /repo's current source, search for a concrete
failing input on the real code, write evidence, report."""
import sys, os, json, time, subprocess, argparse, collections, multiprocessing, hashlib, shutil, tempfile, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
REPO = '/repo'
CACHE = os.path.join(V, '.cache')


def dump(out):
    os.makedirs(CACHE, exist_ok=True)
    env = dict(os.environ)
    r = subprocess.run(['bash', os.path.join(V, 'tools', 'dump.sh'), REPO, out], capture_output=True, text=True, env=env, timeout=600)
    return r.returncode == 0 and os.path.exists(out), r.stderr[-4000:]


PROG = None


def one(job):
    mod, name, budget, timeout = job
    from dv import registry
    from dv.vals import Unsupported
    global PROG
    t0 = time.time()
    C = registry.get(mod, name)
    res = {'contract': name, 'module': mod, 'obl': [], 'fns': {}, 'err': None}
    e = None
    try:
        c = C()
        e, sts = c.start(PROG, timeout)
        e.sink = []
        e.deadline = time.time() + budget
        e.maxpaths = c.maxpaths
        e.run(sts); e.putoff()
        res['obl'] = e.sink
        res['fn'] = c.target(PROG) if hasattr(c, 'target') else c.fn(PROG).path
        res['inlined'] = e.stats['inlined']; res['models'] = e.stats['models']; res['loops'] = e.stats['loops']
        res['returns'] = getattr(e, 'returns', 0); res['paths'] = e.stats['paths']
        res['solver_s'] = round(e.sol.t, 2); res['queries'] = e.sol.n + e.stats['queries']
        if not res['returns'] and not any(o['res'] == 'failed' for o in e.sink):
            res['obl'].append({'name': 'no path of the function reaches its end', 'kind': 'support', 'res': 'undecided', 'fn': '', 'line': None, 't': 0})
        res['notes'] = c.notes
    except Unsupported as x:
        if e is not None and e.sink: res['obl'] = e.sink
        res['obl'].append({'name': 'unsupported: ' + str(x), 'kind': 'support', 'res': 'undecided', 'fn': '', 'line': None, 't': 0})
    except Exception as x:
        if e is not None and e.sink: res['obl'] = e.sink
        res['obl'].append({'name': 'checker: %s: %s' % (type(x).__name__, str(x)[:300]), 'kind': 'support', 'res': 'undecided', 'fn': '', 'line': traceback.format_exc()[-800:], 't': 0})
    for o in res['obl']:
        if o.get('info') is not None and not isinstance(o['info'], dict): o['info'] = {'note': str(o['info'])}
        o['line'] = str(o['line']) if o['line'] is not None else None
    res['wall'] = round(time.time() - t0, 2)
    return res


def verify(jobs, nproc=8):
    """one process per contract, at most nproc at a time"""
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(nproc, maxtasksperchild=1) as pool:
        return pool.map(one, jobs, chunksize=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true'); ap.add_argument('--mir'); ap.add_argument('--no-replay', action='store_true')
    ap.add_argument('--only')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    from dv import registry
    from dv.mir import Prog
    global PROG
    tmp = tempfile.mkdtemp(prefix='dv-')
    mir = a.mir or os.path.join(tmp, 'mir.json')
    quick = a.tier != 'thorough'
    # the search for concrete failing inputs runs beside the proof
    rp = None
    if not a.no_replay:
        from dv import replay
        rp = replay.start(V, CACHE, a.prop, seed, quick, tmp)
    ok, msg = (True, '') if a.mir else dump(mir)
    results = []
    if ok:
        PROG = Prog(mir)
        jobs = [(m, n, 600 if quick else 700, 20000 if quick else 60000) for m, n in registry.contracts().get(a.prop, []) if not a.only or n == a.only]
        results = verify(jobs)
    else:
        results = [{'contract': '-', 'obl': [{'name': 'the tree does not build: ' + msg[-500:], 'kind': 'support', 'res': 'undecided', 'fn': '', 'line': None, 't': 0}]}]
    found = None; rinfo = {}
    if rp is not None: found, rinfo = replay.finish(rp)
    known = load_known(a.prop); listed = []
    for r in results:
        for o in r['obl']:
            if o.get('key') in known and o['res'] != 'ok': o['res'] = 'known'; listed.append(o['key'])
    cnt = collections.Counter(o['res'] for r in results for o in r['obl'] if o['res'] != 'known')
    failed = [(r['contract'], o) for r in results for o in r['obl'] if o['res'] == 'failed']
    und = [(r['contract'], o) for r in results for o in r['obl'] if o['res'] in ('undecided', 'unknown')]
    wall = round(time.time() - t0, 2)
    viol = 0
    os.makedirs(os.path.join(CACHE, 'replay'), exist_ok=True)
    rpath = os.path.join(CACHE, 'replay', a.prop + '.json')
    lines = ['KNOWN-FINDING: property=%s %s' % (a.prop, known[k]) for k in dict.fromkeys(listed)]
    if found and found.get('key') in known:
        lines.append('KNOWN-FINDING: property=%s %s' % (a.prop, known[found['key']])); found = None
    if found or failed:
        viol = 1
        rep = {'property': a.prop, 'failing_input': found,
               'failed_obligations': [{'contract': c, 'obligation': o['name'], 'function': o['fn'], 'line': o['line'], 'solver': o.get('info')} for c, o in dedup(failed)][:20]}
        json.dump(rep, open(rpath, 'w'), indent=1)
        for c, o in dedup(failed)[:8]: print('FAILED obligation [%s] %s (%s:%s)' % (c, o['name'], o['fn'], o['line']))
        if found: print('FAILING INPUT: ' + json.dumps(found)[:1500])
        lines.append('VIOLATION property=%s replay=%s%s' % (a.prop, rpath, '' if found else ' no-failing-input-found'))
    for c, o in dedup(und)[:12]: print('UNDECIDED [%s] %s (%s %s)' % (c, o['name'], o['fn'], o['line']))
    ev = {'property': a.prop, 'tier': 'quick' if quick else 'thorough', 'seed': seed, 'level': 'proof', 'wall_s': wall, 'violations': viol,
          'coverage': {
              'obligations': sum(cnt.values()), 'discharged': cnt['ok'],
              'checker_cmd': './check %s' % a.prop,
              'trusted_base': registry.TRUSTED,
              'functions_under_contract': sorted({r.get('fn') for r in results if r.get('fn')}),
              'bodies_verified_within_their_callers': sorted({f for r in results for f in r.get('inlined', {})}),
              'assumed_contracts_used': sorted({f for r in results for f in r.get('models', {})}),
              'loops': {k: v for r in results for k, v in r.get('loops', {}).items()},
              'paths': sum(r.get('paths', 0) for r in results), 'returns_checked': sum(r.get('returns', 0) for r in results),
              'by_simplifier': sum(1 for r in results for o in r['obl'] if o.get('by') == 'simplifier'),
              'by_z3': sum(1 for r in results for o in r['obl'] if o['res'] == 'ok' and o.get('by') == 'z3'),
              'solver_s': round(sum(r.get('solver_s', 0) for r in results), 2), 'solver_queries': sum(r.get('queries', 0) for r in results),
              'known_findings': ['[%s] %s' % (r['contract'], o['name']) for r in results for o in r['obl'] if o['res'] == 'known'],
              'undecided': ['[%s] %s' % (c, o['name']) for c, o in dedup(und)][:40],
              'failed': ['[%s] %s' % (c, o['name']) for c, o in dedup(failed)][:40],
              'contracts': {r['contract']: {'obligations': len(r['obl']), 'wall_s': r.get('wall')} for r in results},
              'bounded_cross_check': rinfo},
          'assumptions': sorted({n for r in results for n in r.get('notes', [])})}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', a.prop + '.json'), 'w'), indent=1)
    for l in lines: print(l)
    print('%s: %d obligations, %d discharged, %d failed, %d undecided; cross-check %s; %.1fs' % (a.prop, sum(cnt.values()), cnt['ok'], len(failed), len(und), rinfo.get('evaluations', 'off'), wall))
    shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(1 if viol else 0)


def dedup(xs):
    seen = set(); out = []
    for c, o in xs:
        k = (c, o['name'], o['fn'], o['line'])
        if k not in seen: seen.add(k); out.append((c, o))
    return out


def load_known(prop):
    out = {}
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: property=%s ' % prop):
                k, _, d = l.split(' ', 2)[2].partition(' | ')
                out[k.strip()] = d.strip()
    return out


if __name__ == '__main__': main()
