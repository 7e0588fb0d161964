"""Runs the tasks of one check over processes, confirms what they find, and
writes the evidence file."""
import array
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import threading
import time
import traceback

from . import env
from .explore import Result

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence')
FINDINGS = os.path.join(VERIF, 'known_findings.txt')
RUN = os.path.join(VERIF, 'run.py')
MARK = '\x01RESULT '
TASK_LIMIT = dict(quick=240, thorough=600)


# PyPy's loop unrolling has an assertion that fails now and then
NO_UNROLL = ['--jit', 'enable_opts=intbounds:rewrite:virtualize:string:pure:'
             'earlyforce:heap']


class TaskTimeout(Exception):
    pass


_LIMIT = [0, 0, 0.]         # seconds, how often to extend, CPU time at start


def _alarm(sig, frame):
    # a machine with too much to do is no reason to give up
    if _LIMIT[1] and os.getloadavg()[0] > 1.6 * (os.cpu_count() or 1) and \
            time.process_time() - _LIMIT[2] < .5 * _LIMIT[0]:
        _LIMIT[1] -= 1
        signal.alarm(_LIMIT[0])
        return
    raise TaskTimeout('no result in time')


def hide_output():
    """the code under test prints; keep it off our stdout"""
    sys.stdout.flush()
    fd = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    return os.fdopen(fd, 'w')


def one(check, task, limit):
    """result of one task as a plain dict; never raises"""
    signal.signal(signal.SIGALRM, _alarm)
    _LIMIT[:] = limit, 2, time.process_time()
    signal.alarm(limit)
    t = time.time()
    try:
        r = check.run(task).dump()
    except TaskTimeout:
        r = Result().dump()
        r['error'] = 'timeout'
    except BaseException:
        r = Result().dump()
        r['error'] = traceback.format_exc()
        r['theirs'] = env.from_repo(sys.exc_info()[2])
    finally:
        signal.alarm(0)
    r['wall'] = time.time() - t
    r['task'] = task
    return r


_CHECK = None


def _init(check):
    global _CHECK
    _CHECK = check
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    hide_output()


def _work(a):
    return one(_CHECK, a[0], a[1])


# ---------------------------------------------------------------- PyPy workers
class PyPyPool(object):

    def __init__(self, cid, n):
        self.cid, self.n = cid, n
        self.procs = []
        self.crashes = []

    def run(self, tasks, limit, on_result, stop):
        todo = list(reversed(tasks))
        lock = threading.Lock()

        def loop():
            p = None
            tries = 0
            while not stop.is_set():
                if not tries:
                    with lock:
                        if not todo:
                            break
                        task = todo.pop()
                if p is None or p.poll() is not None:
                    p = subprocess.Popen(
                        [env.PYPY] + (NO_UNROLL if tries else []) +
                        [RUN, self.cid, '--worker'],
                        stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                        stderr=subprocess.DEVNULL, universal_newlines=True,
                        cwd=VERIF)
                    self.procs.append(p)
                res = None
                try:
                    p.stdin.write(json.dumps([task, limit]) + '\n')
                    p.stdin.flush()
                    while True:
                        line = p.stdout.readline()
                        if not line:
                            break
                        if line.startswith(MARK):
                            res = json.loads(line[len(MARK):])
                            break
                except (IOError, OSError, ValueError):
                    pass
                if res is None:
                    if stop.is_set():
                        break
                    # PyPy itself crashes now and then (JIT, numpy): try again
                    p.kill()
                    code = p.wait()
                    p = None
                    self.crashes.append('%s: %s' % (code, str(task)[:200]))
                    tries += 1
                    if tries < 4:
                        continue
                    res = Result().dump()
                    res['error'] = 'worker died (%s)' % code
                    res['task'] = task
                    res['wall'] = 0
                else:
                    res['states'] = array.array(
                        'q', res['states']).tobytes()
                tries = 0
                on_result(res)
            if p is not None:
                try:
                    p.stdin.close()
                except (IOError, OSError):
                    pass
                p.wait()
        ths = [threading.Thread(target=loop, daemon=True)
               for _ in range(min(self.n, len(tasks)))]
        for t in ths:
            t.start()
        return ths

    def kill(self):
        for p in self.procs:
            if p.poll() is None:
                p.kill()


def worker(check):
    """main loop of a PyPy worker"""
    out = hide_output()
    for line in sys.stdin:
        task, limit = json.loads(line)
        r = one(check, task, limit)
        r['states'] = list(array.array('q', r['states']))
        out.write(MARK + json.dumps(r) + '\n')
        out.flush()


# ---------------------------------------------------------------- main program
def findings(cid):
    known = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == 'known:' and w[1] == 'property=' + cid:
                known[w[2].split('=', 1)[1]] = w[3].strip()
    return known


class Session(object):

    def __init__(self, check, tier, seed):
        self.check, self.tier, self.seed = check, tier, seed
        self.t0 = time.time()
        self.n, self.outcomes, self.known = {}, {}, {}
        self.states = set()
        self.samples = []
        self.errors = []
        self.unconfirmed = []
        self.confirmed = []
        self.tasks_done = {'cpython': 0, 'pypy': 0}
        self.candidates = []
        self.replayed = 0
        self.timeouts = 0
        self.slow = []
        self.lock = threading.RLock()
        self.settling = threading.RLock()

    def merge(self, r, where):
        with self.lock:
            self._merge(r, where)

    def _merge(self, r, where):
        for k, v in r['n'].items():
            self.n[k] = self.n.get(k, 0) + v
        for k, v in r['outcomes'].items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        for k, v in r['known'].items():
            o = self.known.setdefault(k, [v[0], 0, v[2]])
            o[1] += v[1]
        a = array.array('q')
        a.frombytes(r['states'])
        self.states.update(a)
        if len(self.samples) < 4:
            self.samples += r['samples'][:1]
        self.tasks_done[where] += 1
        self.slow.append((round(r['wall'], 1), where, str(r['task'])[:100]))
        if r.get('error') == 'timeout':
            self.timeouts += 1
            self.candidates.append(
                [dict(kind='task', task=r['task']),
                 'the exploration of this task does not end', where])
        elif r.get('error'):
            if r.get('theirs'):
                # raised inside the code under test where nothing expected it
                self.candidates.append(
                    [dict(kind='task', task=r['task']), 'unexpected ' +
                     r['error'].strip().splitlines()[-1][:300], where])
            else:
                self.errors.append((where, str(r['task'])[:200], r['error']))
        for case, msg in r['violations']:
            self.candidates.append([case, msg, where])

    # --------------------------------------------------------- confirmation
    def confirm(self, case, msg):
        """replay a candidate in a fresh PyPy process (the interpreter that
        the project runs on here)"""
        d = os.path.join(EVID, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (
            self.check.id, len(self.confirmed) + len(self.unconfirmed)))
        with open(path, 'w') as f:
            json.dump(dict(property=self.check.id, message=msg, case=case,
                           repo=env.REPO), f, indent=1)
        try:
            for k in range(4):
                p = subprocess.run(
                    [env.PYPY] + (NO_UNROLL if k else []) + [RUN, self.check.id, '--replay', path],
                    cwd=VERIF, stdout=subprocess.PIPE,
                    stderr=subprocess.PIPE, timeout=400)
                rc, out = p.returncode, p.stdout.decode('utf8', 'replace')
                if rc >= 0:     # else the interpreter crashed
                    break
        except subprocess.TimeoutExpired:
            rc, out = 1, 'does not end'
        self.replayed += 1
        if rc == 1:
            self.confirmed.append([path, msg, out.strip()[-400:]])
            return True
        self.unconfirmed.append([path, msg, out.strip()[-400:]])
        return False

    def settle(self, limit=6):
        """confirm candidates found so far; one confirmed one is enough"""
        with self.settling:
            while self.candidates and not self.confirmed and \
                    len(self.unconfirmed) < limit:
                case, msg, where = self.candidates.pop(0)
                self.confirm(case, msg)

    # ------------------------------------------------------------- running
    def over(self, deadline):
        return bool(self.confirmed) or time.time() > deadline

    def run_vt(self, tasks, deadline, background=None):
        """tasks in this interpreter's process pool; background is started
        after the processes are forked"""
        lim = TASK_LIMIT[self.tier]
        ctx = mp.get_context('fork')
        pool = ctx.Pool(min(8, len(tasks)), _init, (self.check,))
        it = pool.imap_unordered(_work, [(t, lim) for t in tasks])
        if background is not None:
            background.start()
        full = False
        try:
            for _ in tasks:
                r = None
                while r is None and not self.over(deadline):
                    try:
                        r = it.next(timeout=0.5)
                    except mp.TimeoutError:
                        pass
                if r is None:
                    break
                self.merge(r, 'cpython')
                self.settle()
            else:
                full = True
        finally:
            pool.terminate()
            pool.join()
        return full

    def run_pp(self, tasks, deadline, n):
        """tasks in PyPy worker processes"""
        if not tasks:
            return True
        pool = PyPyPool(self.check.id, n)
        stop = threading.Event()
        ths = pool.run(tasks, TASK_LIMIT[self.tier],
                       lambda r: self.merge(r, 'pypy'), stop)
        self.crashes = pool.crashes
        full = True
        while any(t.is_alive() for t in ths):
            time.sleep(0.05)
            if self.over(deadline):
                full = False
                break
            self.settle()
        self.settle()
        stop.set()
        if not full:
            pool.kill()
        for t in ths:
            t.join(timeout=10)
        return full and not self.confirmed

    def go(self):
        quick = self.tier == 'quick'
        deadline = self.t0 + (560 if quick else 780)
        vt, pp = self.check.vt(self.tier), self.check.pp(self.tier)
        # the seed only rotates the order; the explored set is the same
        k = self.seed % len(vt) if vt else 0
        vt = vt[k:] + vt[:k]
        usable = True
        if vt:
            try:
                import pysnobal.point  # noqa: F401
            except Exception:
                usable = False
        done = []
        th = None
        if pp:
            n = 4 if (vt and usable) else 8
            th = threading.Thread(
                target=lambda: done.append(self.run_pp(pp, deadline, n)),
                daemon=True)
        self.full = True
        if vt and usable:
            self.full = self.run_vt(vt, deadline, th)
        elif th is not None:
            th.start()
        if th is not None:
            th.join()
            self.full = self.full and bool(done and done[0])
        self.settle()
        self.fallback = False
        bad = [e for e in self.errors if e[0] == 'cpython']
        if vt and not self.confirmed and (
                not usable or self.unconfirmed or bad):
            # this tree behaves differently in CPython: explore in PyPy itself
            self.fallback = True
            self.errors = [e for e in self.errors if e[0] != 'cpython']
            self.candidates = []
            self.unconfirmed_cpython, self.unconfirmed = self.unconfirmed, []
            self.full = self.run_pp(vt, deadline + (200 if quick else 0), 8)
            self.settle()

    # ------------------------------------------------------------ reporting
    def finish(self, out=sys.stdout):
        cid = self.check.id
        known = findings(cid)
        for k, (msg, n, case) in sorted(self.known.items()):
            if k in known:
                out.write('KNOWN-FINDING: property=%s %s\n' % (cid, known[k]))
            elif not self.confirmed:
                self.confirm(case, msg)
        bounds = self.check.bounds(self.tier)
        if getattr(self.check, 'mixed', False):
            from . import mixed
            bounds['mixed'] = '%d whole runs, an orthogonal array over %d ' \
                'factors of configuration, snowpack, weather and files' % (
                    mixed.count(self.tier), len(mixed.FACTORS))
        cov = dict(
            states=len(self.states) + self.n.get('states', 0),
            transitions=self.n.get('transitions', 0),
            traces_validated_against_impl=self.n.get('paths', 0) +
            self.n.get('traces', 0),
            samples=self.samples[:4] or ['none'],
            exhaustive=bool(self.full and not self.confirmed),
            counters=self.n, outcomes=self.outcomes,
            tasks=self.tasks_done,
            explored_in_pypy_instead_of_cpython=self.fallback,
            interpreter_crashes=getattr(self, 'crashes', []),
            bounds=bounds,
            candidates_replayed=self.replayed,
            candidates_not_reproduced=[m for _, m, _ in self.unconfirmed],
            known_findings_seen=dict((k, v[1])
                                     for k, v in self.known.items()),
            slowest_tasks=sorted(self.slow, reverse=True)[:5])
        ev = dict(property=cid, tier=self.tier, seed=self.seed,
                  level='model_checking', coverage=cov,
                  assumptions=self.check.assumptions,
                  wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.confirmed))
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, '.%s.json' % cid)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.replace(tmp, os.path.join(EVID, cid + '.json'))
        for path, msg, _ in self.confirmed[:3]:
            out.write('%s\nVIOLATION property=%s replay=%s\n' % (
                msg[:2000], cid, path))
        out.write('%s %s: %d states, %d transitions, %d traces, %.1f s%s\n' % (
            cid, self.tier, cov['states'], cov['transitions'],
            cov['traces_validated_against_impl'], ev['wall_s'],
            '' if self.full else ' (not complete)'))
        if self.confirmed:
            return 1
        if self.errors:
            out.write('harness errors: %s\n' % self.errors[0][2][-1500:])
            return 2
        if not cov['transitions'] or not cov['states']:
            out.write('nothing explored: %s\n' % (
                self.errors and self.errors[0][2][-1500:]))
            return 2
        return 0
