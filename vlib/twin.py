"""The same history in all mode and in normal mode.

An oracle gets (case, k, steps, rec): the run steps of data step k as observed
in all mode and the one record that normal mode wrote for it."""
import datetime as dt

from . import explore, model, ref, space
from .oracles import off, say  # noqa: F401


def run(res, case, oracle, step_oracle=None):
    c, init, ws = case['cfg'], case['init'], case['weather']
    C = model.constants(c, init)
    try:
        a = model.make(c, init)
        b = model.make(c, init, 'normal')
    except Exception as e:
        res.bad(case, 'cannot start: %s: %s' % (type(e).__name__, e))
        return False
    pre = model.state(a)
    t = model.T0
    D = dt.timedelta(minutes=c['data_time_step'])

    def path():
        return dict(case, weather=ws[:k + 2])
    ca, cb = model.record(ws[0]), model.record(ws[0])
    for k in range(len(ws) - 1):
        na, nb = model.record(ws[k + 1]), model.record(ws[k + 1])
        errs = []
        out = []
        for sn, x, y in ((a, ca, na), (b, cb, nb)):
            n0 = len(sn.output_list)
            try:
                sn.do_data_tstep(x, y)
                errs.append(None)
            except Exception as e:
                errs.append('%s: %s' % (type(e).__name__, e))
            out.append([model.plain(r) for r in sn.output_list[n0:]])
            del sn.output_list[:]
        recs, norm = out
        steps, pre, t = model.steps_of(c, C, pre, ws[k], ws[k + 1], recs, t, k)
        for s in steps:
            explore.see(res, s)
            if step_oracle:
                m = step_oracle(s)
                if m and not isinstance(m, tuple):
                    res.bad(path(), m)
                    return False
        if errs[0] is not None or errs[1] is not None:
            if (errs[0] is None) != (errs[1] is None):
                res.bad(path(), 'all mode stops with %r, normal mode with %r'
                        % tuple(errs))
                return False
            res.out('stopped')
            return True
        m = oracle(case, k, steps, norm, model.T0 + D * (k + 1))
        if m:
            res.bad(path(), 'data step %d: %s' % (k, m))
            return False
        res.count('transitions')
        ca, cb = na, nb
    res.count('paths')
    if len(res.samples) < 2 and len(ws) < 60:
        res.samples.append(case)
    return True


# -------------------------------------------------------------------- oracles
def one(norm):
    if len(norm) != 1:
        return 'normal mode wrote %d records in a data step' % len(norm)
    return None


def aggregates(case, k, steps, norm, end):
    """C09"""
    m = one(norm)
    if m:
        return m
    r = norm[0]
    if not steps:
        return 'no run steps in all mode'
    T = sum(s.dt for s in steps)
    last = steps[-1].rec
    for q in ref.STATE + ('cc_s',):
        if q in r and q in last and off(q if q != 'cc_s' else 'cc_s_0', r[q],
                                        last[q]):
            return '%s is %r in normal mode, %r at the end of the data step ' \
                'in all mode' % (q, r[q], last[q])
    for q in ref.ENERGY:
        v = sum(s.rec[q + '_bar'] * s.dt for s in steps) / T
        sc = max(abs(s.rec[q + '_bar']) for s in steps)
        if not abs(r[q + '_bar'] - v) <= 1e-9 + 1e-9 * sc:
            return 'mean %s is %r, its run steps give %r' % (
                q, r[q + '_bar'], v)
    for q in ('E_s_sum', 'melt_sum', 'swi_sum'):
        v = sum(s.rec[q] for s in steps)
        sc = sum(abs(s.rec[q]) for s in steps)
        if not abs(r[q] - v) <= 1e-12 + 1e-9 * sc:
            return 'sum %s is %r, its run steps give %r' % (q, r[q], v)
    if r['date_time'] != last['date_time']:
        return 'normal record at %s, last run step ends %s' % (
            r['date_time'], last['date_time'])
    return None


def times(case, k, steps, norm, end):
    """C10"""
    m = one(norm)
    if m:
        return m
    if norm[0]['date_time'] != end:
        return 'normal record at %s, should be %s' % (norm[0]['date_time'],
                                                      end)
    if not steps:
        return 'no records in all mode'
    c = case['cfg']
    ok = [c[x + '_time_step'] * 60. for x in ('norm', 'medium', 'small')]
    for s in steps:
        if s.dt <= 0:
            return 'record at %s is not after the one before' % s.rec[
                'date_time']
        if not any(abs(s.dt - x) < 1e-6 for x in ok):
            return 'record at %s ends a run step of %g s' % (
                s.rec['date_time'], s.dt)
    if steps[-1].rec['date_time'] != end:
        return 'last all-mode record at %s, should be %s' % (
            steps[-1].rec['date_time'], end)
    return None


def mass(case, k, steps, norm, end):
    """C01 in normal mode; what K2 explains was found in all mode"""
    from . import oracles
    m = one(norm)
    if m:
        return None
    r = norm[0]
    k2 = 0.0
    for s in steps:
        if isinstance(oracles.mass(s), tuple):
            k2 += s.rec['h2o']
    w = case['weather'][k]
    m0 = steps[0].pre['m_s']
    res = (r['m_s'] - m0) - (w['m_pp'] + r['E_s_sum'] - r['swi_sum']) - k2
    if abs(res) > 1e-6 + 1e-9 * (abs(r['m_s']) + w['m_pp']):
        return 'mass changed by %r, precipitation %r + E_s %r - swi %r' % (
            r['m_s'] - m0, w['m_pp'], r['E_s_sum'], r['swi_sum'])
    return None


def energy(case, k, steps, norm, end):
    from . import oracles
    if one(norm):
        return None
    m = oracles.energy_closure(norm[0])
    if m:
        return m
    if not any(s.snow for s in steps):
        for q in ref.ENERGY:
            if norm[0][q + '_bar'] != 0:
                return 'no snow, but %s = %r' % (q, norm[0][q + '_bar'])
    return None


def _record(f):
    """a one-record oracle applied to the normal-mode record"""
    def check(case, k, steps, norm, end):
        if len(norm) != 1 or not steps:
            return None
        w = case['weather'][k]
        first, last = steps[0], steps[-1]
        fo = ref.forcing(case['weather'][k], case['weather'][k + 1], 0.0, 1.0)
        s = model.Step(first.c, first.C, first.pre, fo,
                       sum(x.dt for x in steps), norm[0], 0.0, w,
                       case['weather'][k + 1], k)
        s.last = last
        return f(s)
    return check


def _bounds(s):
    from . import oracles
    return oracles.bounds(s)


def _layers(s):
    from . import oracles
    # the thresholds are judged on the last run step, where the runoff of the
    # step is known
    r = dict(s.rec, swi_sum=s.last.rec['swi_sum'])
    return oracles.layers(model.Step(s.c, s.C, s.last.pre, s.f, s.dt, r, s.el,
                                     s.w1, s.w2, s.k))


bounds, layers = _record(_bounds), _record(_layers)


class Extra(object):
    """adds the two-mode campaign to a physics check"""

    def __init__(self, oracle, step_oracle=None, long=True):
        self.oracle, self.so = oracle, step_oracle

    def bounds(self, tier):
        return {'both modes': '%d configurations x %d snowpacks x %d weather '
                'triples, and %d long histories' % (
                    len(space.CONFIGS), len(space.key_states()),
                    self._triples(tier), len(LONGS) * (
                        1 if tier == 'quick' else 4))}

    def _triples(self, tier):
        return len(space.WEATHER_PAIRS) * (2 if tier == 'quick' else 7)

    def vt(self, tier):
        t = [dict(campaign='twin', cfg=i, third=2 if tier == 'quick' else 7)
             for i in range(len(space.CONFIGS))]
        for c, s in LONGS:
            for d in range(1 if tier == 'quick' else 4):
                t.append(dict(campaign='twinlong', cfg=c, state=(s + d) % 12,
                              order=3 if tier == 'quick' else 4))
        return t

    def pp(self, tier):
        return []

    def t_twin(self, res, t):
        c = space.CONFIGS[t['cfg']]
        for i, init in enumerate(space.key_states()):
            for a, b in space.WEATHER_PAIRS:
                for third in space.ALPHA[i % 3:][:t['third']]:
                    run(res, dict(kind='twin', cfg=c, init=init,
                                  weather=[a, b, third]), self.oracle, self.so)

    def t_twinlong(self, res, t):
        run(res, dict(kind='twin', cfg=space.CONFIGS[t['cfg']],
                      init=space.key_states()[t['state']],
                      weather=[space.ALPHA[i] for i in explore.debruijn(
                          len(space.ALPHA), t['order'])]), self.oracle,
            self.so)

    def r_twin(self, case):
        res = explore.Result()
        run(res, case, self.oracle, self.so)
        return [m for _, m in res.violations]


LONGS = [(0, 0), (1, 5), (5, 3), (6, 7), (8, 1), (11, 6), (13, 9), (25, 2)]
