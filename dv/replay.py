"""The search for concrete failing inputs: builds the replay crate against /repo's working tree and runs it.
It runs beside the proof; what it finds is a violation shown on the real code, what it does not find proves nothing."""
import os, json, subprocess, threading, time


class Run: pass


def start(V, CACHE, prop, seed, quick, tmp):
    r = Run()
    r.V, r.prop, r.seed, r.tmp = V, prop, seed, tmp
    r.secs = 20 if quick else 240
    r.nproc = 4 if quick else 6
    r.out = None; r.info = {}
    r.th = threading.Thread(target=_go, args=(r, V, CACHE)); r.th.start()
    return r


def _exe(CACHE): return os.path.join(CACHE, 'replay', 'debug', 'replay')


def _go(r, V, CACHE):
    try:
        os.makedirs(CACHE, exist_ok=True)
        td = os.path.join(CACHE, 'replay')
        b = subprocess.run(['cargo', 'build', '-q', '--offline', '--manifest-path', os.path.join(V, 'replay', 'Cargo.toml'), '--target-dir', td],
                           capture_output=True, text=True, timeout=600, cwd=os.path.join(V, 'replay'), env=dict(os.environ, RUSTFLAGS='-Awarnings'))
        if b.returncode != 0:
            r.info = {'error': 'the replay crate does not build: ' + b.stderr[-1500:], 'evaluations': 0}; return
        tot = [0, 0]; bads = []; end = time.time() + r.secs
        def work(i):
            first = i
            while not bads:
                o = os.path.join(r.tmp, 'rp%d.json' % i)
                if os.path.exists(o): os.remove(o)
                left = end - time.time()
                if left < 0.5 and first != i: return
                p = subprocess.Popen(_cmd(CACHE, r, first, r.nproc, max(left, 1), 10**9, o), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                try: rc = p.wait(timeout=r.secs + 120)
                except subprocess.TimeoutExpired: p.kill(); p.wait(); rc = -9
                d = json.load(open(o)) if os.path.exists(o) else None
                if d is None:
                    n = _crash(CACHE, r, first)
                    if n is not None: bads.append({'case': n, 'input': 'see case number', 'expected': 'the call returns', 'actual': 'the process running the call ended abnormally (status %s)' % rc})
                    return
                tot[0] += d['ran']; tot[1] += d['skipped']; first = d['next']
                if d['bad']: bads.append(d['bad']); return
                if time.time() >= end - 0.5: return
        ts = [threading.Thread(target=work, args=(i,)) for i in range(r.nproc)]
        for t in ts: t.start()
        for t in ts: t.join()
        ran, skipped = tot; bad = bads[0] if bads else None
        if bad is not None and 'abnormally' not in bad['actual']:
            o = os.path.join(r.tmp, 'rpc.json')
            subprocess.run(_cmd(CACHE, r, bad['case'], 1, 60, 1, o), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=180)
            d = json.load(open(o)) if os.path.exists(o) else None
            if d is None or not d['bad']: r.info['not_reproduced'] = bad; bad = None
        r.info.update({'what': 'random small inputs on the real code against an independent reference evaluator; bounded, never counted as proved',
                       'evaluations': ran, 'outside_preconditions': skipped, 'seed': r.seed})
        if bad is not None:
            bad['replay_cmd'] = 'cd %s && cargo run --offline -- %s %d %d 1 60 1 OUT.json' % (os.path.join(V, 'replay'), r.prop, r.seed, bad['case'])
            bad['key'] = '%s seed %d case %d' % (r.prop, r.seed, bad['case'])
            r.out = bad
    except Exception as x:
        r.info = {'error': '%s: %s' % (type(x).__name__, x), 'evaluations': 0}


def _cmd(CACHE, r, first, step, secs, mx, out):
    return [_exe(CACHE), r.prop, str(r.seed), str(first), str(step), str(secs), str(mx), out]


def _crash(CACHE, r, first):
    """which case ended the process"""
    i = first % r.nproc
    tr = os.path.join(r.tmp, 'trace%d' % i)
    try: subprocess.run(_cmd(CACHE, r, first, r.nproc, r.secs, 10**9, os.path.join(r.tmp, 'x%d' % i)), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=r.secs + 60, env=dict(os.environ, REPLAY_TRACE=tr))
    except subprocess.TimeoutExpired: return None
    if os.path.exists(os.path.join(r.tmp, 'x%d' % i)): return None
    try: return int(open(tr).read() or 'x')
    except Exception: return None


def finish(r):
    r.th.join()
    return r.out, r.info
