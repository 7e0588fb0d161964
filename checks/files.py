"""C31 a configuration object means the same as its file; C32 a run writes its
output file, completely or not at all, and nothing else."""
import copy
import os

from vlib import driver
from .program import Cases, base_case, numbers

F = driver.F


def master():
    import pysnobal.pysnobal as pp
    from inicheck.config import MasterConfig
    return MasterConfig(path=os.path.join(
        os.path.dirname(os.path.abspath(pp.__file__)),
        'pysnobal_core_config.ini'))


def short(**kw):
    """a case with three data steps"""
    c = base_case(mode='normal', **kw)
    return dict(c, weather=c['weather'][:4])


# ------------------------------------------------------------------ C31
class Objects(Cases):
    id = 'C31'
    parts = 24
    technique = 'exhaustive enumeration of operation sequences (construct ' \
        'from the object, from the file, run the older or newer pending ' \
        'simulation, edit an option, copy the object) on the real program; ' \
        'oracle: the settings at construction written to a file of their own'
    assumptions = ['the object is not edited between construction and run of '
                   'a simulation', 'objects made by inicheck from a file and '
                   'the program\'s own master configuration']
    # option -> value after the edit
    EDITS = [('initial_snow_properties.z_s', .3), ('model.max_active', .1),
             ('topo.elevation', 3500.), ('files.output_mode', 'all'),
             ('files.format_output', True), ('measurement_heights.z_u', 8.),
             ('measurement_heights.relative_heights', True),
             ('initial_snow_properties.t_s_0', -9.),
             ('initial_snow_properties.t_s', -7.),
             ('measurement_heights.z_g', .1), ('model.norm_threshold', 300),
             ('model.max_h2o', .05), ('initial_snow_properties.h2o_sat', .4),
             ('initial_snow_properties.rho', 150.),
             ('measurement_heights.z_t', 9.), ('model.medium_time_step', 30),
             ('initial_snow_properties.z_0', .02)]

    def bounds(self, tier):
        return {'operation sequences': 'all of length <= %d over 7 '
                'operations, at most 2 pending simulations, for %d pairs of '
                'edited options: %d maximal sequences' % (
                    self.depth(tier), len(self.pairs(tier)),
                    len(list(self.cases(tier))))}

    def depth(self, tier):
        return 6

    def pairs(self, tier):
        n = len(self.EDITS)
        if tier == 'thorough':
            return [(i, (i + k) % n) for k in (1, 5) for i in range(n)]
        return [(i, (i + 5) % n) for i in range(n)]

    def words(self, n):
        """maximal operation sequences of length n that end with a run"""
        out = []

        def go(word, pending, copied):
            if len(word) == n:
                return
            more = False
            for op in ('N', 'F', 'R', 'S', 'a', 'b', 'C'):
                if op in 'NF' and pending == 2:
                    continue
                if op == 'R' and not pending or op == 'S' and pending < 2:
                    continue
                if op in 'ab' and pending:
                    continue
                if op == 'C' and copied:
                    continue
                p = pending + (op in 'NF') - (op in 'RS')
                if p > n - len(word) - 1:       # could not all be run
                    continue
                w = word + op
                if len(w) == n and op in 'RS':
                    out.append(w)
                go(w, p, copied + (op == 'C'))
                more = True
            return more
        go('', 0, 0)
        # what the file alone does is no matter of this property
        return [w for w in out if 'N' in w]

    def cases(self, tier):
        ws = self.words(self.depth(tier))
        for i, (a, b) in enumerate(self.pairs(tier)):
            for j, w in enumerate(ws):
                # without an edit every pair is the same
                if not set('ab') & set(w) and i:
                    continue
                if 'b' in w and 'a' not in w:
                    continue
                if tier == 'quick' and (i + j) % 4:
                    continue
                yield dict(kind='whole', ops=w, edits=[a, b])

    _want = {}

    def want(self, on):
        """what a file with these edits gives"""
        k = tuple(sorted(on))
        if k not in self._want:
            self._want[k] = driver.run(short(set=dict(
                (self.EDITS[i][0], str(self.EDITS[i][1])) for i in k)))[:2]
        return self._want[k]

    def judge(self, case, stats):
        from pysnobal.pysnobal import PySnobal
        from inicheck.tools import get_user_config
        base = {}
        with driver.Scratch() as d:
            ini = driver.prepare(short(), d)
            U = get_user_config(ini, mcfg=master())
            mine = copy.deepcopy(U.cfg)
            on, pending, did = set(), [], ''
            for op in case['ops']:
                did += op
                try:
                    if op == 'N':
                        pending.append((PySnobal(U), set(on)))
                    elif op == 'F':
                        pending.append((PySnobal(ini), set()))
                    elif op == 'C':
                        U = copy.deepcopy(U)
                    elif op in 'ab':
                        i = case['edits']['ab'.index(op)]
                        s, o = self.EDITS[i][0].split('.')
                        if i in on:
                            on.discard(i)
                            U.cfg[s][o] = mine[s][o] = base[i]
                        else:
                            on.add(i)
                            base[i] = U.cfg[s][o]
                            U.cfg[s][o] = mine[s][o] = self.EDITS[i][1]
                    else:
                        p, was = pending.pop(0 if op == 'R' else 1)
                        p.run()
                        got = driver.read_out(os.path.join(d, 'out.csv'))
                        want = self.want(was)
                        if stats is not None:
                            stats.count('runs compared')
                        if list(got[0]) != list(want[0]) or \
                                not same(got[1], want[1]):
                            return 'after %s (edits %s): output differs ' \
                                'from that of a file with the same settings ' \
                                '(%s)' % (did, self.names(case), sorted(
                                    self.EDITS[i] for i in was))
                except Exception as e:
                    return 'after %s (edits %s): %s: %s' % (
                        did, self.names(case), type(e).__name__, e)
                if U.cfg != mine:
                    return 'after %s (edits %s): the caller\'s configuration '\
                        'object was changed: %s' % (
                            did, self.names(case), changed(mine, U.cfg))
        return None

    def names(self, case):
        return ', '.join(self.EDITS[i][0] for i in case['edits'])


def same(a, b):
    return len(a) == len(b) and numbers(a) == numbers(b)


def changed(a, b):
    out = []
    for s in a:
        for o in a[s]:
            x = b.get(s, {}).get(o, 'missing')
            if x != a[s][o]:
                out.append('%s.%s = %r, was %r' % (s, o, x, a[s][o]))
    return ', '.join(out) or 'sections'


# ------------------------------------------------------------------ C32
class Stop(Exception):
    pass


def listing(d):
    out = {}
    for root, dirs, names in os.walk(d):
        for n in dirs:
            out[os.path.relpath(os.path.join(root, n), d)] = None
        for n in names:
            p = os.path.join(root, n)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, d)] = f.read()
    return out


BAD = [  # a record the model must refuse
    ('humid', dict(e_a=5000.)), ('no density', dict(
        m_pp=3., percent_snow=1., rho_snow=0., t_pp=F - 3)),
    ('no temperature', dict(t_a=-3.)), ('dry', dict(e_a=-5.)),
    ('buried', dict(m_pp=900., percent_snow=1., rho_snow=50., t_pp=F - 5,
                    t_a=F - 4, e_a=300.))]
OLD = [None, 'date_time,x\n2000-01-01,5\n' * 400, '']


class AllOrNothing(Cases):
    id = 'C32'
    parts = 16
    technique = 'fault enumeration: an error or an interrupt at every data ' \
        'step of a run, every kind of refused record at every row, every ' \
        'kind of unusable input file, with and without an earlier output ' \
        'file; oracle: byte comparison of the directory'
    assumptions = ['the writing of the file itself is not interrupted']

    def bounds(self, tier):
        return {'interrupted': 'every data step x 3 exceptions x 3 earlier '
                'output files x modes x formats', 'refused records':
                '%d kinds at every row' % len(BAD), 'cases': len(list(
                    self.cases(tier)))}

    def cases(self, tier):
        n = len(base_case()['weather'])
        for mode, fmt in (('normal', False), ('all', True), ('all', False),
                          ('normal', True)):
            c = base_case(mode=mode, fmt=fmt)
            for old in range(len(OLD)):
                yield dict(c, what='done', old=old)
                for order in (list(range(n))[::-1], [1, 0] + list(range(2, n)),
                              [n - 1] + list(range(n - 1))):
                    for w in ('done', 'construct', 'no name'):
                        yield dict(c, what=w, old=old, rows=order, **(
                            dict(omit=['files.output_csv'])
                            if w == 'no name' else {}))
                    for k in (0, n // 2, n - 2):
                        yield dict(c, what='stop', at=k, exc='RuntimeError',
                                   old=old, rows=order)
                        yield dict(c, what='bad', at=k, bad=0, old=old,
                                   rows=order)
                yield dict(c, what='construct', old=old)
                yield dict(c, what='again', old=old)
                yield dict(c, what='other name', old=old)
                yield dict(c, what='no name', old=old,
                           omit=['files.output_csv'])
                yield dict(c, what='no directory', old=old)
                for k in range(n - 1):
                    for e in ('RuntimeError', 'KeyboardInterrupt',
                              'SystemExit', 'MemoryError'):
                        yield dict(c, what='stop', at=k, exc=e, old=old)
                if old == 2 and tier == 'quick':
                    continue
                for b in range(len(BAD)):
                    for k in range(n):
                        yield dict(c, what='bad', bad=b, at=k, old=old)
                for t in ('column', 'text', 'date', 'empty', 'header'):
                    yield dict(c, what='file', spoil=t, old=old)
                for cfg in (dict(medium_time_step=7),
                            dict(small_time_step=0)):
                    yield dict(c, cfg=dict(c['cfg'], **cfg), what='construct',
                               old=old)

    def judge(self, case, stats):
        from pysnobal.pysnobal import PySnobal
        case = dict(case)
        if case['what'] == 'bad':
            ws = [dict(w) for w in case['weather']]
            ws[case['at']].update(BAD[case['bad']][1])
            case['weather'] = ws
        with driver.Scratch() as d:
            out = os.path.join(d, 'out.csv')
            if case['what'] == 'other name':
                out = os.path.join(d, 'b.csv')
                case['set'] = {'files.output_csv': out}
            if case['what'] == 'no directory':
                out = os.path.join(d, 'none', 'out.csv')
                case['set'] = {'files.output_csv': out}
            ini = driver.prepare(case, d)
            if case['what'] == 'file':
                spoil(os.path.join(d, 'in.csv'), case['spoil'])
            if OLD[case['old']] is not None:
                for n in ('out.csv', 'b.csv', 'readme'):
                    with open(os.path.join(d, n), 'w') as f:
                        f.write(OLD[case['old']])
            before = listing(d)
            here = sorted(os.listdir('.'))
            err = None
            try:
                p = PySnobal(ini)
                if case['what'] != 'construct':
                    if case['what'] == 'stop':
                        fault(p, case['at'], case['exc'])
                    p.run()
                    if case['what'] == 'again':
                        PySnobal(ini).run()
            except (Exception, KeyboardInterrupt, SystemExit) as e:
                err = e
            after = listing(d)
            if sorted(os.listdir('.')) != here:
                return '%s: files appear in the working directory' % (
                    case['what'],)
        name = os.path.relpath(out, d)
        if stats is not None:
            stats.out('stopped' if err is not None else 'completed')
        diff = sorted(k for k in set(before) | set(after)
                      if before.get(k, 0) != after.get(k, 0))
        what = ', '.join('%s=%s' % (k, case[k]) for k in (
            'what', 'at', 'exc', 'bad', 'spoil', 'mode', 'fmt', 'old', 'rows')
            if k in case)
        if err is not None or case['what'] in ('construct', 'no name'):
            if diff:
                return '%s: %s, but %s changed' % (
                    what, 'stopped by %s' % type(err).__name__ if err
                    is not None else 'nothing to write', ', '.join(diff))
            return None
        if case['what'] in ('stop',):
            return '%s: the run goes on after an error' % what
        if [k for k in diff if k != name]:
            return '%s: %s changed' % (what, ', '.join(diff))
        if name not in after:
            return '%s: no output' % what
        # the same bytes as in an empty directory
        with driver.Scratch() as e:
            x = dict(case)
            x.pop('set', None)
            ini = driver.prepare(x, e)
            if case['what'] == 'file':
                spoil(os.path.join(e, 'in.csv'), case['spoil'])
            PySnobal(ini).run()
            if listing(e)['out.csv'] != after[name]:
                return '%s: the output depends on what the directory held ' \
                    'before' % what
        return None


def fault(p, at, exc):
    """an exception in place of data step number at"""
    from pysnobal.point import Snobal
    left = [at]
    do = Snobal.do_data_tstep
    e = dict(RuntimeError=RuntimeError, SystemExit=SystemExit,
             KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError)[exc]

    def step(self, *a, **k):
        left[0] -= 1
        if left[0] < 0:
            Snobal.do_data_tstep = do
            raise e('injected')
        return do(self, *a, **k)
    Snobal.do_data_tstep = step


def spoil(path, how):
    with open(path) as f:
        lines = f.read().splitlines()
    if how == 'column':
        lines = [','.join(x.split(',')[:-1]) for x in lines]
    elif how == 'text':
        x = lines[2].split(',')
        x[3] = 'warm'
        lines[2] = ','.join(x)
    elif how == 'date':
        lines[2] = 'soon' + lines[2][10:]
    elif how == 'empty':
        lines = []
    else:
        lines = lines[:1]
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')


CHECKS = [Objects(), AllOrNothing()]
