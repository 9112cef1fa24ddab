"""Explores the harnesses of a property, replays what the solver finds on the
unmodified package, and writes the evidence file."""
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings
from . import core, ctx

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class H:
    """a harness: fn(cx, **case) for every case"""

    def __init__(self, fn, cases=None, thorough=None, name=None, opts=None, bounds=''):
        self.fn = fn
        self.name = name or fn.__name__
        self.cases = cases if cases is not None else [{}]
        self.thorough = thorough
        self.opts = opts or {}
        self.bounds = bounds

    def all_cases(self, tier):
        return self.thorough if tier == 'thorough' and self.thorough is not None else self.cases


def load(prop):
    m = importlib.import_module('harness.' + prop.lower())
    return m


# ------------------------------------------------------------------ coverage
FUNCS, LINES = set(), {}


def start_monitor():
    from . import loader
    mon = sys.monitoring
    mon.use_tool_id(3, 'vp')
    root = loader.ROOT + os.sep

    def on_start(code, off):
        if code.co_filename.startswith(root) and loader.is_rewritten(code.co_filename):
            if code.co_name != '<module>':
                FUNCS.add(code.co_filename[len(root):] + ':' + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(3, mon.events.PY_START, on_start)


def monitor(on):
    mon = sys.monitoring
    mon.set_events(3, mon.events.PY_START if on else 0)


# -------------------------------------------------------------------- replay
class Alarm(BaseException):
    pass


def _alarm(sig, frame):
    raise Alarm()


def replay(h, case, inputs, slack=1.0, limit=30):
    """-> (status, failed) with status ok | failed | skip | hang"""
    cx = ctx.RealCtx(inputs, slack)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    so = sys.stdout
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            sys.stdout = open(os.devnull, 'w')
            try:
                h.fn(cx, **case)
            except core.PathAbort:
                pass
            except Exception as exc:
                tb = traceback.extract_tb(exc.__traceback__)
                cx.failed.append(('exception', '%s: %s (%s)' % (
                    type(exc).__name__, str(exc)[:200],
                    '; '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-3:]))))
    except ctx.Skip:
        return ('failed' if cx.failed else 'skip'), cx.failed
    except Alarm:
        return 'hang', [('hang', 'no result after %d s' % limit)]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        sys.stdout.close()
        sys.stdout = so
        cx.close_ctx()
    return ('failed' if cx.failed else 'ok'), cx.failed


def variations(inputs, rng, n):
    """inputs around a given assignment (used only to confirm, never to pass)"""
    names = [k for k, v in inputs.items() if isinstance(v, float)]
    for i in range(n):
        d = dict(inputs)
        for k in names:
            r = rng.random()
            v = d[k]
            if r < 0.25:
                continue
            if r < 0.5:
                d[k] = v * (1 + rng.uniform(-1e-3, 1e-3))
            elif r < 0.8:
                d[k] = v * 10 ** rng.uniform(-1, 1)
            else:
                d[k] = rng.choice([-1, 1]) * 10 ** rng.uniform(-2, 2) if v <= 0 else 10 ** rng.uniform(-2, 2)
        yield d


def random_inputs(run, rng):
    """an assignment within the declared ranges (confirmation of an 'unknown')"""
    out = {}
    for name, (kind, payload) in run.inputs.items():
        lo, hi = run.ranges.get(name, (None, None))
        if kind in ('real', 'fp'):
            lo, hi = (-100.0 if lo is None else lo), (100.0 if hi is None else hi)
            if lo > 0 and hi / lo > 100 and rng.random() < 0.5:
                out[name] = lo * (hi / lo) ** rng.random()
            else:
                out[name] = rng.uniform(lo, hi)
        elif kind == 'int':
            out[name] = rng.randint(lo, hi) if lo is not None else rng.randint(0, 3)
        elif kind == 'bool':
            out[name] = rng.random() < 0.5
        elif kind == 'str':
            out[name] = "".join(chr(rng.randint(32, 126)) for _ in payload)
        else:
            out[name] = payload
    return out


# ----------------------------------------------------------------- one item
def explore_item(item, opts):
    h, case = item['h'], item['case']
    st = core.Stats()
    res = {'violation': None, 'undecided': [], 'reached': 0, 'replayed': 0, 'skipped': 0, 'samples': [],
           'labels': {}, 'left': [], 'stub': []}
    stack = list(item['prefixes'])
    t_end = time.time() + opts.get('slice_s', 3.0)
    rng = random.Random(opts.get('seed', 1) * 7919 + len(stack))
    n = 0
    while stack:
        if n and time.time() > t_end:
            break
        prefix = stack.pop()
        n += 1
        run = core.Run(prefix, st, opts)
        core.CUR = run
        cx = ctx.SymCtx(run)
        ended = 'end'
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                monitor(True)
                try:
                    h.fn(cx, **case)
                finally:
                    monitor(False)
        except core.PathAbort:
            ended = 'abort'
        except core.PathLimit as exc:
            ended = 'limit'
            res['undecided'].append({'why': 'limit: ' + str(exc), 'path': len(run.decisions)})
        except RecursionError:
            ended = 'limit'
            res['undecided'].append({'why': 'recursion limit', 'path': len(run.decisions)})
        except Exception as exc:
            tb = traceback.extract_tb(exc.__traceback__)
            note = '%s: %s (%s)' % (type(exc).__name__, str(exc)[:200],
                                    '; '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]))
            run.reached = True
            try:
                r, m = run.solve([])
            except Exception:
                r, m = 'unknown', None
            if r != 'unsat':
                run.candidates.append(('exception', r, m, None, note))
        finally:
            cx.close_ctx()
        stack.extend(run.alternatives)
        st.paths += 1
        if ended == 'abort':
            st.aborted += 1
        if run.partial:
            res['undecided'].append({'why': 'concretised: ' + '; '.join(sorted(set(run.partial)))[:200]})
        if run.reached:
            res['reached'] += 1
        for k, v in run.labels.items():
            res['labels'][k] = res['labels'].get(k, 0) + v
        # counterexamples
        for label, r, m, c, note in run.candidates:
            confirmed = None
            tried = 0
            base = None
            if m is not None:
                base = run.input_values(m)
                tried += 1
                s, failed = replay(h, case, base)
                if s in ('failed', 'hang'):
                    confirmed = (base, failed)
            if confirmed is None:
                if base is None:
                    try:
                        mm = run.get_model()
                        base = run.input_values(mm) if mm is not None else None
                    except core.PathAbort:
                        continue
                tries = [] if base is None else [base] + list(variations(base, rng, 150))
                if r == 'unknown':
                    tries += [random_inputs(run, rng) for _ in range(400)]
                t_stop = time.time() + 40
                if tries:
                    for inp in tries:
                        if time.time() > t_stop:
                            break
                        tried += 1
                        s, failed = replay(h, case, inp, slack=100.0)
                        if s in ('failed', 'hang'):
                            confirmed = (inp, failed)
                            break
            if confirmed:
                res['violation'] = {'harness': h.name, 'case': case, 'label': label, 'solver': r,
                                    'note': note, 'inputs': confirmed[0], 'failed': confirmed[1]}
                break
            res['undecided'].append({'why': 'solver said %s for "%s" but it does not reproduce (%d runs)%s' % (
                r, label, tried, ' ' + str(note) if note else ''), 'inputs': base})
        if res['violation']:
            break
        # witness of this path, validated on the real package
        if run.reached and not run.candidates:
            try:
                m = run.get_model()
            except core.PathAbort:
                m = None
            if m is not None:
                inp = run.input_values(m)
                s, failed = replay(h, case, inp, slack=opts.get('slack', 1e4))
                if s in ('failed', 'hang'):
                    # a disagreement must survive small changes of the numbers
                    bad, tot = 1, 1
                    for v in variations(inp, rng, 6):
                        s2, f2 = replay(h, case, v, slack=opts.get('slack', 1e4))
                        if s2 == 'skip':
                            continue
                        tot += 1
                        bad += s2 in ('failed', 'hang')
                    if bad >= 2 or tot == 1:
                        res['violation'] = {'harness': h.name, 'case': case, 'label': failed[0][0],
                                            'solver': 'path witness', 'note': 'found when validating a path',
                                            'inputs': inp, 'failed': failed}
                        break
                    res['undecided'].append({'why': 'witness fails for isolated numbers only: %s' % (failed[0],),
                                             'inputs': inp})
                elif s == 'skip':
                    res['skipped'] += 1
                else:
                    res['replayed'] += 1
                    if len(res['samples']) < 1:
                        res['samples'].append({'harness': h.name, 'case': str(case)[:200], 'inputs': inp,
                                               'branches': len(run.decisions)})
    res['left'] = stack
    res['stats'] = {k: getattr(st, k) for k in ('queries', 'unsat', 'sat', 'unknown', 'solver_s', 'branches', 'paths',
                                                'aborted', 'checks', 'discharged', 'concretized')}
    res['notes'] = st.notes
    from . import stubs
    res['funcs'] = sorted(FUNCS)
    res['stubs'] = sorted(stubs.USED)
    res['undecided'] = res['undecided'][:20]
    return res


def worker(conn, hs, opts):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    start_monitor()
    sys.setrecursionlimit(3000)
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        hi, case, prefixes = msg
        h = hs[hi]
        o = dict(opts)
        o.update(h.opts)
        try:
            r = explore_item({'h': h, 'case': case, 'prefixes': prefixes}, o)
        except BaseException as exc:
            r = {'error': '%s: %s' % (type(exc).__name__, exc), 'tb': traceback.format_exc()}
        conn.send(r)


class Pool:
    def __init__(self, hs, opts, n):
        self.hs, self.opts = hs, opts
        self.ctx = mp.get_context('fork')
        self.slots = [None] * n

    def start(self, i):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=worker, args=(b, self.hs, self.opts), daemon=True)
        p.start()
        b.close()
        self.slots[i] = {'p': p, 'c': a, 'job': None, 't': 0}

    def kill(self, i):
        s = self.slots[i]
        if s is not None:
            s['p'].kill()
            s['p'].join()
            s['c'].close()
            self.slots[i] = None

    def close(self):
        for i in range(len(self.slots)):
            self.kill(i)


def run_property(prop, tier, seed, opts, only=None, verbose=False):
    t0 = time.time()
    mod = load(prop)
    hs = mod.HARNESSES
    base = {'seed': seed}
    base.update(opts)
    queue = []
    for hi, h in enumerate(hs):
        if only and h.name != only:
            continue
        for ci, case in enumerate(h.all_cases(tier)):
            if os.environ.get('VERIF_CASE', '') not in str(case):
                continue
            queue.append((hi, ci, case, [[]]))
    queue.reverse()
    per = {}
    total = dict(queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, branches=0, paths=0, aborted=0, checks=0,
                 discharged=0, concretized=0)
    agg = {'replayed': 0, 'skipped': 0, 'samples': [], 'funcs': set(), 'stubs': set(), 'undecided': [], 'notes': {},
           'labels': {}}
    violation = None
    n = opts.get('jobs', 8)
    pool = Pool(hs, base, n)
    deadline = t0 + opts.get('deadline_s', 800)
    item_limit = opts.get('item_limit_s', 200)
    busy = 0
    try:
        while queue or busy:
            if time.time() > deadline:
                agg['undecided'].append({'why': 'time limit of the check: %d items left' % (len(queue) + busy)})
                break
            for i in range(n):
                s = pool.slots[i]
                if queue and (s is None or s['job'] is None):
                    if s is None:
                        pool.start(i)
                        s = pool.slots[i]
                    hi, ci, case, prefixes = queue.pop()
                    s['job'] = (hi, ci, case, prefixes)
                    s['t'] = time.time()
                    s['c'].send((hi, case, prefixes))
                    busy += 1
            conns = {s['c']: i for i, s in enumerate(pool.slots) if s is not None and s['job'] is not None}
            ready = mp.connection.wait(list(conns), timeout=1.0)
            now = time.time()
            for i, s in enumerate(pool.slots):
                if s is not None and s['job'] is not None and s['c'] not in ready and now - s['t'] > item_limit:
                    hi, ci, case, prefixes = s['job']
                    agg['undecided'].append({'why': 'item exceeded %d s' % item_limit, 'harness': hs[hi].name,
                                             'case': str(case)})
                    pool.kill(i)
                    busy -= 1
            for c in ready:
                i = conns[c]
                s = pool.slots[i]
                if s is None:
                    continue
                hi, ci, case, prefixes = s['job']
                try:
                    r = c.recv()
                except EOFError:
                    r = {'error': 'worker died', 'tb': ''}
                    pool.kill(i)
                else:
                    s['job'] = None
                busy -= 1
                h = hs[hi]
                key = (h.name, ci)
                if 'error' in r:
                    agg['undecided'].append({'why': 'internal: ' + r['error'], 'harness': h.name, 'case': str(case),
                                             'tb': r.get('tb', '')[-1500:]})
                    continue
                d = per.setdefault(key, {'case': case, 'paths': 0, 'reached': 0})
                d['paths'] += r['stats']['paths']
                d['reached'] += r['reached']
                for k in total:
                    total[k] += r['stats'][k]
                agg['replayed'] += r['replayed']
                agg['skipped'] += r['skipped']
                agg['funcs'].update(r['funcs'])
                agg['stubs'].update(r['stubs'])
                if len(agg['samples']) < 6:
                    agg['samples'] += r['samples'][:1]
                for k, v in r['notes'].items():
                    agg['notes'][k] = agg['notes'].get(k, 0) + v
                for k, v in r['labels'].items():
                    agg['labels'][k] = agg['labels'].get(k, 0) + v
                for u in r['undecided']:
                    u['harness'], u['case'] = h.name, str(case)
                    agg['undecided'].append(u)
                if r['violation'] and violation is None:
                    violation = r['violation']
                maxp = h.opts.get('max_paths', opts.get('max_paths', 6000))
                if r['left']:
                    if d['paths'] >= maxp:
                        agg['undecided'].append({'why': 'path limit %d reached' % maxp, 'harness': h.name,
                                                 'case': str(case)})
                    else:
                        left = r['left']
                        k = max(1, min(len(left), n))
                        for j in range(k):
                            part = left[j::k]
                            if part:
                                queue.append((hi, ci, case, part))
            if violation:
                break
    finally:
        pool.close()
    for (name, ci), d in sorted(per.items()):
        if d['reached'] == 0 and violation is None:
            agg['undecided'].append({'why': 'vacuous: no path reaches a check', 'harness': name,
                                     'case': str(d['case'])})
    return {'prop': prop, 'violation': violation, 'total': total, 'agg': agg, 'per': per, 'wall': time.time() - t0,
            'hs': [h for h in hs if not only or h.name == only], 'mod': mod}


def untuple(v):
    return v
