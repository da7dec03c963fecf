"""Path exploration: workers run a harness on the instrumented build, decide the
property on each path for all values at once and flip every branch with the solver."""
import faulthandler
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import signal
import sys
import time
import traceback

import sym
from sym import SB, SF, SI, sb


class Discard(Exception):
    """An assumption does not hold on this input."""


class Ctx:
    def __init__(self, values, params, rec=None):
        self.values = values
        self.params = params
        self.rec = rec            # None: concrete replay
        self.checks = []          # (SB, message)
        self.declared = {}
        self.notes = []

    # ---- inputs
    def _decl(self, name, kind, w, lo, hi, frac, default):
        if name in self.declared:
            raise RuntimeError(f'input {name} declared twice')
        v = self.values.get(name, default)
        if kind != 'b' and not (lo / (1 << frac) <= v <= hi / (1 << frac)):
            v = default  # a value meant for other bounds
        self.declared[name] = v
        if self.rec is None:
            return v, 0
        return v, self.rec.var(name, kind, w, lo, hi, frac, v)

    def int(self, name, lo, hi):
        if lo == hi:
            return SI(lo)
        w = max(max(hi, 0).bit_length(), max(-lo - 1, 0).bit_length(), 1) + 1
        v, i = self._decl(name, 'i', w, lo, hi, 0, min(max(0, lo), hi))
        if i:
            i = sym.LIB.cast(sym.OP['SEXT'], w, 64, i, v & ((1 << w) - 1))
        return SI(v, i)

    def bool(self, name):
        v, i = self._decl(name, 'b', 1, 0, 1, 0, False)
        return SB(v, i)

    def flt(self, name, lo=-8, hi=8, frac=0):
        """A score: a multiple of 2^-frac in [lo, hi]."""
        l, h = int(lo * (1 << frac)), int(hi * (1 << frac))
        w = max(max(h, 0).bit_length(), max(-l - 1, 0).bit_length()) + 1
        v, i = self._decl(name, 'f', w, l, h, frac, float(min(max(0, lo), hi)))
        return SF(v, i)

    def real(self, name, lo=-1.0, hi=1.0):
        """A log-semiring score (domain exp)."""
        v, i = self._decl(name, 'e', 64, lo, hi, 0, 0.0 if lo <= 0 <= hi else (lo + hi) / 2)
        return SF(v, i)

    def pos(self, name, lo=0.25, hi=4.0):
        """A number in ordinary real arithmetic (domain exp)."""
        v, i = self._decl(name, 'p', 64, lo, hi, 0, (lo + hi) / 2)
        return SF(v, i)

    def choose(self, name, options):
        options = list(options)
        return options[int(self.int(name, 0, len(options) - 1))]

    # ---- obligations
    def assume(self, c):
        c = sb(c)
        if self.rec is not None and c.i:
            self.rec.assume(c)
        if not c.v:
            raise Discard()

    def check(self, c, msg):
        self.checks.append((sb(c), msg))

    def fail(self, msg):
        self.check(False, msg)

    def note(self, s):
        self.notes.append(s)


class Recorder:
    """Per worker: variables and the solver side."""

    def __init__(self):
        self.vars = {}
        self.index = {}
        self.conv = {}
        self.noflip = set()
        self.used = []

    def var(self, name, kind, w, lo, hi, frac, v):
        key = (name, kind, w, lo, hi, frac)
        idx = self.index.get(key)
        if idx is None:
            idx = self.index[key] = len(self.vars)
            self.vars[idx] = key
        self.used.append(idx)
        if kind in 'fep':
            return sym.LIB.var(idx, 64, 1, sym.dbits(v))
        return sym.LIB.var(idx, w, 0, int(v) & ((1 << w) - 1))

    def assume(self, c):
        n = sym.LIB.ntrace()
        sym.LIB.branch(c.i, int(c.v))
        if sym.LIB.ntrace() > n:
            self.noflip.add(n)
            if not c.v:
                self.unmet = n

    def converter(self, domain):
        if domain not in self.conv:
            import smt
            if domain == 'exp':
                import expdom
                self.conv[domain] = expdom.ExpConv(self.vars)
            else:
                self.conv[domain] = smt.Conv(self.vars)
        return self.conv[domain]


class Harness:
    def __init__(self, fn, name=None, params=None, domain='fix', weight=1.0, solver=None, check_ms=8000, flip_ms=4000, max_children=400, path_s=20):
        self.path_s = path_s   # solver time per path after which its remaining branches stay open
        self.fn, self.params, self.domain, self.weight = fn, params or {}, domain, weight
        self.name = name or fn.__name__
        self.solver = solver
        self.check_ms, self.flip_ms = check_ms, flip_ms
        self.max_children = max_children


REC = None


def make_solver(z3, h):
    if h.domain == 'exp':
        s = z3.Solver()
        return s
    return z3.SolverFor(h.solver or 'QF_FD')


SELFTEST = False


def selftest(z3, conv, rec, used, conds, takens, obligations, declared):
    """Evaluates the formulas on the input of the run: they must agree with it."""
    import smt
    sub, bad = [], []
    for idx in used:
        name, kind, w, lo, hi, frac = rec.vars[idx]
        v = declared[name]
        sub.append((conv.zvar(idx), z3.BoolVal(bool(v)) if kind == 'b' else z3.BitVecVal(int(v * (1 << frac)) if kind == 'f' else int(v), conv.zvar(idx).size())))
    for what, L in (('branch', [(i, bool(t)) for i, t in zip(conds, takens)]), ('obligation', [(i, bool(v)) for i, v, _ in obligations if i])):
        for k, (i, v) in enumerate(L):
            try:
                f = conv.bool(i)
            except smt.Unsupported:
                continue
            e = z3.simplify(z3.substitute(f, *sub))
            if not (z3.is_true(e) if v else z3.is_false(e)):
                bad.append((what, k, v, str(e)[:200]))
    return bad


def run_symbolic(h, values, depth, expect, excl=(), sched=0):
    """One path. Returns a dict for the coordinator."""
    import smt
    z3 = smt.z3
    global REC
    if REC is None:
        REC = Recorder()
    rec = REC
    rec.noflip = set()
    rec.unmet = None
    rec.used = []
    L = sym.LIB
    conv = rec.converter(h.domain)
    ctx = Ctx(values, h.params, rec)
    t0 = time.time()
    err = None
    discarded = False
    mode = sym.make_mode()
    L.excl_clear()
    for p, v in excl:
        L.excl(p, v)
    L.fix(int(h.domain == 'fix'))
    sym.EXACT = h.domain == 'fix'
    L.begin()
    L.sched(sched)
    try:
        with mode:
            h.fn(ctx)
    except Discard:
        discarded = True
    except sym.EngineError as e:
        err = ('engine', f'{e}\n' + traceback.format_exc(limit=-4))
    except Exception as e:
        err = ('exception', f'{type(e).__name__}: {str(e)[:400]}\n' + traceback.format_exc(limit=-3)[:2000])
    finally:
        L.pause(0)
    n = L.ntrace()
    tr = (sym.ctypes.c_uint32 * (4 * n)).from_address(L.trace())[:] if n else []
    conds = tr[0::4]
    takens = [t & 1 for t in tr[1::4]]
    pins = [(k, tr[4 * k + 2] | tr[4 * k + 3] << 32) for k in range(n) if tr[4 * k + 1] & 2]
    bits = bytes(takens)
    obligations = [(c.i, c.v, m) for c, m in ctx.checks]
    t1 = time.time()
    r = {'bits': bits, 'n': n, 't_run': t1 - t0, 'children': [], 'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0,
         'unsupported': [], 'viol': None, 'obligations': len(obligations), 'discarded': discarded, 'err': err,
         'decided': False, 'inexact': L.stat(0), 'stat': [L.stat(1), L.stat(3), L.stat(4)], 'notes': ctx.notes,
         'diverged': False, 'sched_n': L.sched_n(), 'pinned_ops': dict(sym.STATS['pinned_ops']), 'values': dict(ctx.declared)}
    sym.STATS['pinned_ops'].clear()
    if err and err[0] == 'engine':
        L.end()
        r['t_solve'] = 0
        return r
    r['diverged'] = bool(expect) and bits[:len(expect)] != expect
    if err:
        r['viol'] = (dict(values, **ctx.declared), 'uncaught ' + err[1])
    bad = [m for i, v, m in obligations if not v]
    if bad:
        r['viol'] = (dict(values, **ctx.declared), bad[0])

    s = make_solver(z3, h)
    used = sorted(set(rec.used))
    for idx in used:
        for c in conv.bounds(idx):
            s.add(c)

    def model_values(m):
        out = dict(values)
        for idx in used:
            out[rec.vars[idx][0]] = conv.value(m, idx)
        return out

    def excl_at(k):
        return [(p, v) for p, v in pins if p <= k and (takens[p] == 0 or p == k)]

    if SELFTEST or (h.domain == 'fix' and sum(bits) % 61 == 0):
        r['selftest'] = selftest(z3, conv, rec, used, conds, takens, obligations, ctx.declared)
        if r['selftest']:
            r['err'] = ('engine', f'formula and run differ: {r["selftest"][:3]} {ctx.declared}')
    s.set('timeout', h.flip_ms)
    nflip = 0
    exp, margins = h.domain == 'exp', []
    start = 0 if r['diverged'] else depth
    _last[0] = time.time()
    for k in range(n):
        try:
            c = conv.bool(conds[k])
        except smt.Unsupported as e:
            r['unsupported'].append(str(e))
            continue
        lit = c if takens[k] else z3.Not(c)
        if os.environ.get('K2SYM_TRACE'): print(k, takens[k], str(c)[:200], flush=True)
        if k >= start and k not in rec.noflip and not r['diverged'] and time.time() - t1 > h.path_s:
            r['unknown'] += 1
        elif k >= start and k not in rec.noflip and not r['diverged']:
            neg = z3.Not(c) if takens[k] else c
            r['queries'] += 1
            if exp:
                for x in conv.extra():
                    s.add(x)
                mg = conv.margins(c)
                res = s.check(neg, *margins, *mg)
                if res != z3.sat:
                    res = s.check(neg)
            else:
                res = s.check(neg)
            if TIMES: note_time('flip', k, c)
            if res == z3.sat:
                r['sat'] += 1
                r['children'].append((model_values(s.model()), k + 1, bits[:k] + bytes([1 - takens[k]]), excl_at(k)))
                nflip += 1
            elif res == z3.unsat:
                r['unsat'] += 1
            else:
                r['unknown'] += 1
        s.add(lit)
        if exp:
            margins += conv.margins(c)
    if discarded:
        # look for an input that satisfies the assumption
        k = n - 1
        if n and k == rec.unmet:
            try:
                c = conv.bool(conds[k])
                s2 = make_solver(z3, h)
                s2.set('timeout', h.flip_ms)
                for idx in used:
                    for b in conv.bounds(idx):
                        s2.add(b)
                for j in range(n - 1):
                    cj = conv.bool(conds[j])
                    s2.add(cj if takens[j] else z3.Not(cj))
                r['queries'] += 1
                if s2.check(z3.Not(c) if takens[k] else c) == z3.sat:
                    r['sat'] += 1
                    r['children'].append((model_values(s2.model()), k + 1, bits[:k] + bytes([1 - takens[k]]), excl_at(k)))
                else:
                    r['unsat'] += 1
            except smt.Unsupported as e:
                r['unsupported'].append(str(e))
    elif not r['viol']:
        sym_ob = [(i, m) for i, v, m in obligations if i]
        forms, ok = [], True
        for i, m in sym_ob:
            try:
                forms.append((conv.bool(i), m))
            except smt.Unsupported as e:
                ok = False
                r['unsupported'].append('property: ' + str(e))
        if forms:
            s.set('timeout', h.check_ms)
            r['queries'] += 1
            res = conv.prove(s, forms) if hasattr(conv, 'prove') else s.check(z3.Not(z3.And([f for f, _ in forms])))
            if TIMES: note_time('property', 0, forms)
            if res == z3.sat:
                r['sat'] += 1
                m = s.model()
                msg = next((t for f, t in forms if z3.is_false(m.eval(f, model_completion=True))), forms[0][1])
                r['viol'] = (model_values(m), msg)
            elif res == z3.unsat:
                r['unsat'] += 1
            else:
                r['unknown'] += 1
                ok = False
        r['decided'] = ok
    L.end()
    r['t_solve'] = time.time() - t1
    return r


# ----------------------------------------------------------------- worker pool
def worker(conn, harnesses):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    null = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get('K2SYM_DEBUG'):
        os.dup2(null, 1)
        os.dup2(null, 2)
    else:
        faulthandler.enable()
    sym.setup_torch()
    count = 0
    while True:
        try:
            t = conn.recv()
        except EOFError:
            return
        if t is None:
            return
        hi, values, depth, expect, excl, sched = t
        try:
            r = run_symbolic(harnesses[hi], values, depth, expect, excl, sched)
        except Exception as e:
            r = {'fatal': f'{type(e).__name__}: {e}\n{traceback.format_exc()}'}
        count += 1
        if count < 4 or count % 16 == 0:
            cap = 1 << 20
            buf = sym.ctypes.create_string_buffer(cap)
            n = sym.LIB.coverage(buf, cap)
            r['coverage'] = buf.raw[:n].decode().split()
        r['recycle'] = sym.LIB.nnodes() > 6_000_000
        conn.send(r)
        if r['recycle']:
            return


def cpu(pid):
    """CPU seconds used by a process (a pause of the whole machine is no timeout)."""
    try:
        with open(f'/proc/{pid}/stat') as f:
            x = f.read().rsplit(')', 1)[1].split()
        return (int(x[11]) + int(x[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError):
        return 0.0


TIMES = os.environ.get('K2SYM_TIMES')   # a file for the slow queries
_last = [0.0]


def note_time(what, k, c):
    t = time.time()
    if t - _last[0] > 0.3:
        with open(TIMES, 'a') as f:
            f.write(f'{what} {k} {t - _last[0]:.2f} {str(c)[:1500]}\n')
    _last[0] = time.time()


class Explorer:
    def __init__(self, harnesses, budget, seed=1, nworkers=8, run_limit=60, stop_on=None, log=None):
        self.hs = harnesses
        self.budget = budget
        self.rng = random.Random(seed)
        self.nw = nworkers
        self.run_limit = run_limit
        self.log = log
        self.stat = [dict(paths=0, discarded=0, queries=0, sat=0, unsat=0, unknown=0, t_solve=0.0, t_run=0.0, obligations=0,
                          decided=0, undecided=0, unsupported={}, diverged=0, crashes=0, engine=0, timeouts=0, inexact=0,
                          branches=0, exhausted=False, samples=[], pinned_ops={}, notes={}, max_branches=0) for _ in harnesses]
        self.cands = []  # (harness index, values, message)
        self.fatal = []
        self.coverage = set()

    def spawn(self):
        a, b = mp.Pipe()
        pid = os.fork()
        if pid == 0:
            a.close()
            for w in getattr(self, 'ws', []):
                w['conn'].close()
            try:
                worker(b, self.hs)
            except BaseException:
                traceback.print_exc()
            os._exit(0)
        b.close()
        return {'conn': a, 'pid': pid, 'task': None, 't': 0}

    def kill(self, w):
        try:
            os.kill(w['pid'], signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            os.waitpid(w['pid'], 0)
        except ChildProcessError:
            pass
        w['conn'].close()

    def run(self, on_candidate=None):
        """on_candidate(hi, values, msg) -> True stops the exploration."""
        q = [[({}, 0, b'', (), 0)] for _ in self.hs]
        seen = [set() for _ in self.hs]
        busy = [0] * len(self.hs)
        spent = [0.0] * len(self.hs)
        parked = [[] for _ in self.hs]

        def ask():
            # the time spent on confirming a counterexample is not the exploration's
            nonlocal t0
            t = time.time()
            r = on_candidate(*self.cands[-1])
            t = time.time() - t
            t0 += t
            for w in self.ws:
                w['t'] += t
            return r
        self.ws = []
        for _ in range(self.nw):
            self.ws.append(self.spawn())
        t0 = time.time()
        stop = False
        while not stop:
            now = time.time()
            if now - t0 > self.budget:
                # each harness gets at least one path, within limits
                late = [k for k in range(len(self.hs)) if not self.stat[k]['paths'] and (q[k] or busy[k])]
                if not late or now - t0 > 3 * self.budget + 60:
                    break
                for k in range(len(self.hs)):
                    if k not in late:
                        parked[k] += q[k]
                        q[k] = []
            idle = [w for w in self.ws if w['task'] is None]
            for w in idle:
                live = [k for k in range(len(self.hs)) if q[k]]
                if not live:
                    break
                k = min(live, key=lambda k: spent[k] / self.hs[k].weight + busy[k] * 0.05)
                # mostly random, sometimes the newest: depth and spread
                j = self.rng.randrange(len(q[k])) if self.rng.random() < 0.7 else len(q[k]) - 1
                q[k][j], q[k][-1] = q[k][-1], q[k][j]
                task = q[k].pop()
                w['task'] = (k,) + task
                w['t'] = now
                w['cpu'] = cpu(w['pid'])
                busy[k] += 1
                w['conn'].send(w['task'])
            act = [w for w in self.ws if w['task'] is not None]
            if not act:
                break
            ready = mp.connection.wait([w['conn'] for w in act], timeout=0.5)
            for w in act:
                if w['conn'] in ready:
                    k = w['task'][0]
                    busy[k] -= 1
                    spent[k] += time.time() - w['t']
                    try:
                        r = w['conn'].recv()
                    except (EOFError, ConnectionResetError):
                        self.stat[k]['crashes'] += 1
                        pid, st = os.waitpid(w['pid'], 0)
                        self.cands.append((k, w['task'][1], f'process died with status {st}'))
                        if on_candidate and ask():
                            stop = True
                        w['conn'].close()
                        self.ws[self.ws.index(w)] = self.spawn()
                        continue
                    w['task_done'] = w['task']
                    w['task'] = None
                    if self.absorb(k, r, q[k], seen[k]) and on_candidate and ask():
                        stop = True
                    if r.get('recycle'):
                        os.waitpid(w['pid'], 0)
                        w['conn'].close()
                        self.ws[self.ws.index(w)] = self.spawn()
                elif (time.time() - w['t'] > self.run_limit and
                      (cpu(w['pid']) - w['cpu'] > self.run_limit or time.time() - w['t'] > 3 * self.run_limit)):
                    k = w['task'][0]
                    busy[k] -= 1
                    spent[k] += self.run_limit
                    self.stat[k]['timeouts'] += 1
                    self.cands.append((k, w['task'][1], 'no end within the time limit'))
                    self.kill(w)
                    self.ws[self.ws.index(w)] = self.spawn()
                    if on_candidate and ask():
                        stop = True
        left = [len(x) + len(y) for x, y in zip(q, parked)]
        for k in range(len(self.hs)):
            running = sum(1 for w in self.ws if w['task'] is not None and w['task'][0] == k)
            s = self.stat[k]
            s['open'] = left[k] + running
            s['exhausted'] = (s['open'] == 0 and not s['unknown'] and not s['unsupported'] and not s['diverged']
                              and not s['crashes'] and not s['engine'] and not s['timeouts'])
        for w in self.ws:
            self.kill(w)
        self.elapsed = time.time() - t0
        return self.cands

    def absorb(self, k, r, queue, seen):
        s = self.stat[k]
        self.coverage.update(r.get('coverage', ()))
        if 'fatal' in r:
            s['engine'] += 1
            self.fatal.append(r['fatal'])
            return False
        for f in ('queries', 'sat', 'unsat', 'unknown', 't_solve', 't_run'):
            s[f] += r[f]
        s['branches'] += r['n']
        s['max_branches'] = max(s['max_branches'], r['n'])
        for u in r['unsupported']:
            s['unsupported'][u] = s['unsupported'].get(u, 0) + 1
        for o, c in r['pinned_ops'].items():
            s['pinned_ops'][o] = s['pinned_ops'].get(o, 0) + c
        for nt in r['notes']:
            s['notes'][nt] = s['notes'].get(nt, 0) + 1
        if r['diverged']:
            s['diverged'] += 1
        if r['err'] and r['err'][0] == 'engine':
            s['engine'] += 1
            self.fatal.append(r['err'][1])
            return False
        if r['inexact']:
            s['inexact'] += 1
        key = r['bits']
        new = key not in seen
        seen.add(key)
        if new:
            if r['discarded']:
                s['discarded'] += 1
            else:
                s['paths'] += 1
                s['obligations'] += r['obligations']
                if r['decided']:
                    s['decided'] += 1
                elif not r['viol']:
                    s['undecided'] += 1
                if len(s['samples']) < 3 and (s['paths'] < 2 or self.rng.random() < 0.05):
                    s['samples'].append({'input': {a: b for a, b in list(r['values'].items())[:40]}, 'branches': r['n']})
        for c in r['children']:
            queue.append((c[0], c[1], c[2], c[3], 0))
        if r['viol']:
            self.cands.append((k, r['viol'][0], r['viol'][1]))
            return True
        return False


# ------------------------------------------------------------------- replay
def run_concrete(h, values):
    """Runs the harness on the plain build; returns the failed checks."""
    ctx = Ctx(values, h.params, None)
    try:
        h.fn(ctx)
    except Discard:
        return None, ctx
    except Exception as e:
        return [f'uncaught {type(e).__name__}: {str(e)[:600]}'], ctx
    return [m for c, m in ctx.checks if not c.v], ctx
