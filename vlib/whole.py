"""Judging complete runs of the program (ini + CSV -> CSV), under PyPy."""
import datetime as dt
import math

from . import driver, oracles, ref, space, twin

FORMAT = dict(
    [(k, '%.3f') for k in ('R_n', 'H', 'L_v_E', 'G', 'M', 'delta_Q', 'G_0',
                           'delta_Q_0', 'rho', 'm_s_0', 'm_s_l', 'm_s',
                           'h2o')] +
    [(k, '%.9e') for k in ('cc_s_0', 'cc_s_l', 'cc_s')] +
    [(k, '%.8f') for k in ('E_s', 'melt', 'swi')] +
    [(k, '%.6f') for k in ('z_s_0', 'z_s_l', 'z_s')] +
    [(k, '%.5f') for k in ('t_s_0', 't_s_l', 't_s')])

step_oracle = oracles.both(
    oracles.forcing, oracles.turbulent, oracles.all_state, oracles.bounds,
    oracles.layers, oracles.energy)


when = driver.when


def effective(case):
    """the case as it is after clipping the rows to the window"""
    rows = driver.table(case)
    D = dt.timedelta(minutes=case['cfg']['data_time_step'])
    sd = when(case['sd']) if case.get('sd') else rows[0][0]
    ed = when(case['ed']) if case.get('ed') else rows[-2][0]
    keep = [i for i, (t, _) in enumerate(rows) if sd <= t <= ed + D]
    start = rows[keep[0]][0]
    return dict(case, weather=[case['weather'][i] for i in keep],
                start=start.strftime('%Y-%m-%d %H:%M'))


def zoned(t, tz):
    import pytz
    return pytz.timezone(tz).localize(t)


def end_times(case):
    """time stamps of the ends of the data steps of an effective case"""
    return [zoned(t, case.get('tz', 'UTC'))
            for t, _ in driver.table(case)[1:]]


def all_mode(case):
    return keep(dict(case, mode='all', fmt=False), 'files.output_mode',
                'files.format_output')


def keep(case, *options):
    """the case with these options in the file"""
    return dict(case, omit=[k for k in case.get('omit') or ()
                            if k not in options])


def judge_all(case, cols, rows, oracle=step_oracle, division=True,
              stats=None):
    """message for an all-mode, unformatted output, or None"""
    e = effective(case)
    if cols[1:] != driver.OUTCOLS:
        return 'columns %s' % cols
    data, rest = driver.as_steps(e, cols, rows)
    if rest:
        return 'a record at %s, after the end of the simulation' % \
            rest[0]['date_time']
    ends = end_times(e)
    if len(ends) != len(data):
        return 'data steps %d' % len(data)
    for k, (steps, end) in enumerate(zip(data, ends)):
        if not steps:
            return 'no record in the data step that ends at %s' % end
        if steps[-1].rec['date_time'] != end:
            return 'last record of a data step is at %s, should be %s' % (
                steps[-1].rec['date_time'], end)
        for s in steps:
            if s.dt <= 0:
                return 'record at %s is not later than the one before' % \
                    s.rec['date_time']
            m = oracle(s) if oracle else None
            if m and not isinstance(m, tuple):
                return m
            if stats is not None:
                from . import explore
                explore.see(stats, s)
        if division:
            m = oracles.division(case['cfg'], steps)
            if m:
                return m
    return None


def judge_normal(case, cols, rows, acols, arows):
    """an unformatted normal-mode output against the all-mode one"""
    e = effective(case)
    if cols != acols:
        return 'columns differ between the modes'
    data, _ = driver.as_steps(e, acols, arows)
    ends = end_times(e)
    recs = [driver.to_record(cols, r) for r in rows]
    if len(recs) != len(ends):
        return '%d records for %d data steps' % (len(recs), len(ends))
    for k, (steps, end, r) in enumerate(zip(data, ends, recs)):
        m = twin.times(case, k, steps, [r], end)
        if not m:
            m = twin.aggregates(case, k, steps, [r], end)
        if m:
            return 'data step %d: %s' % (k, m)
    return None


def near_tie(x, digits):
    y = abs(x) * 10 ** digits
    return abs(y - math.floor(y) - 0.5) < 1e-6


def judge_format(cols, rows, fcols, frows):
    """formatted output against unformatted output of the same mode"""
    if cols != fcols:
        return 'formatting changes the columns'
    if len(rows) != len(frows):
        return 'formatting changes the number of records'
    for (t, a), (ft, b) in zip(rows, frows):
        if t != ft:
            return 'formatting changes the time stamp %s to %s' % (t, ft)
        for k, x, y in zip(cols[1:], a, b):
            want = FORMAT[k] % float(x)
            if y != want:
                # repr() in the CSV can lose the last bit: accept a neighbour
                near = [FORMAT[k] % (float(x) * (1 + d))
                        for d in (1e-15, -1e-15)]
                if y not in near:
                    return '%s at %s is %s, formatted as %s' % (k, t, x, y)
    return None


def run_all(case):
    return driver.run(all_mode(case))[:2]


def judge(case, stats=None, oracle=step_oracle):
    """a whole run in whatever mode and format; message or None"""
    try:
        acols, arows = run_all(case)
    except Exception as e:
        why = driver.refused(case, e)
        if why:
            return None
        return 'valid input, but the run stops with %s: %s' % (
            type(e).__name__, e)
    except SystemExit:
        return 'valid input, but the program exits'
    m = judge_all(case, acols, arows, oracle, stats=stats)
    if m:
        return m
    if case.get('mode', 'all') == 'all' and not case.get('fmt'):
        return None
    try:
        cols, rows = driver.run(
            keep(dict(case, fmt=False), 'files.format_output'))[:2]
        if case['mode'] == 'normal':
            m = judge_normal(case, cols, rows, acols, arows)
        elif rows != arows:
            m = 'two runs of the same case differ'
        if m or not case.get('fmt'):
            return m
        fcols, frows = driver.run(case)[:2]
        return judge_format(cols, rows, fcols, frows)
    except Exception as e:
        return 'valid input, but the run stops with %s: %s' % (
            type(e).__name__, e)


def short_history(n=6, k=0):
    """n weather records with precipitation, melt and refreezing"""
    al = space.ALPHA
    order = [4, 2, 1, 3, 0, 6, 5]
    return [al[order[(i + k) % len(order)]] for i in range(n)]


__all__ = ['judge', 'judge_all', 'ref']
