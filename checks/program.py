"""Checks on complete runs of the program (C20 options, C21 input, C22
output, C29 no look-ahead)."""
import datetime as dt
import itertools
import os

from vlib import driver, explore, mixed, model, ref, space, whole
from vlib.base import Check

F = ref.FREEZE
INIT = dict(z_s=.5, rho=300., t_s_0=F - 3, t_s=F - 2, h2o_sat=.2, z_0=.005)
WEATHER = whole.short_history(6)


def norm_cfg(case):
    """JSON round trip keeps dicts; nothing to do"""
    return case


class Cases(Check):
    """a list of cases, each judged on its own; mixed: and the runs of
    vlib/mixed.py"""
    parts = 8
    mixed = False

    def cases(self, tier):
        raise NotImplementedError

    def judge(self, case, stats):
        return whole.judge(case, stats)

    def pp(self, tier):
        return [dict(campaign=k, tier=tier, part=i, of=self.parts)
                for k in ['cases'] + ['mixed'] * self.mixed
                for i in range(self.parts)]

    def t_mixed(self, res, t):
        self.run_cases(res, t, self.mixed_cases(t['tier']))

    def mixed_cases(self, tier):
        return mixed.cases(tier)

    def t_cases(self, res, t):
        self.run_cases(res, t, self.cases(t['tier']))

    def run_cases(self, res, t, cases):
        for i, case in enumerate(cases):
            if i % t['of'] != t['part']:
                continue
            m = self.judge(case, res)
            res.count('transitions')
            res.count('paths')
            res.count('whole program runs')
            res.states.add(explore.digest(sorted(case.items(), key=str)))
            if len(res.samples) < 1:
                res.samples.append(case)
            if m:
                res.bad(case, m)
                if len(res.violations) >= 3:
                    return

    def r_whole(self, case):
        m = self.judge(case, None)
        return [m] if m else []


def numbers(rows):
    """output rows as numbers: an integer zero and a float zero are the same
    record"""
    return [(t, [float(x) for x in r]) for t, r in rows]


# ------------------------------------------------------------------ C20
# option -> list of (text, changes of the configuration, of the initial state,
# of the case)
def option_values():
    o = {}

    def c(key, *vals):
        o[key] = vals

    def m(sec, k, *vs):
        c('%s.%s' % (sec, k), *[dict(cfg={k: v}, text=str(v)) for v in vs])
    m('topo', 'elevation', 3500., 0., -50., 7000., 432.1)
    m('measurement_heights', 'z_u', 8., 3., .9, 40.)
    m('measurement_heights', 'z_t', 3., 9., .8, 25.)
    m('measurement_heights', 'z_g', .2, 1., .02, 2.)
    m('measurement_heights', 'relative_heights', True, False)
    m('model', 'norm_time_step', 30, 15, 20)
    m('model', 'medium_time_step', 30, 10, 5, 60, 3)
    m('model', 'small_time_step', 5, 15, 3)
    m('model', 'norm_threshold', 200, 20, 1000)
    m('model', 'medium_threshold', 80, 0)
    m('model', 'small_threshold', 30, 100, 2)
    m('model', 'max_h2o', .03, .002, .15)
    m('model', 'max_active', .1, .6, .04, 3.)
    m('time', 'time_step', 120, 180)
    o['time.time_step'] = [dict(cfg=dict(data_time_step=v), text=str(v))
                           for v in (120, 180)]
    for k, vs in dict(z_s=(1.2, 0., .2, 3.9), rho=(450., 120., 590., 50.),
                      h2o_sat=(.8, 0., 1., .01),
                      z_0=(.001, .02, .0001, .05)).items():
        o['initial_snow_properties.' + k] = [
            dict(init={k: v}, text=repr(v)) for v in vs]
    for k in ('t_s_0', 't_s'):
        o['initial_snow_properties.' + k] = [
            dict(init={k: v + F}, text=repr(v)) for v in (-8.5, 0., -1., -30.)]
    o['time.time_zone'] = [dict(case=dict(tz=z), text=z) for z in (
        'America/Denver', 'Asia/Kolkata', 'Etc/GMT+8', 'Asia/Kathmandu')]
    o['time.start_date'] = [dict(case=dict(sd=z), text=z) for z in (
        '2000-01-01 02:00', '2000-01-01 01:30')]
    o['time.end_date'] = [dict(case=dict(ed=z), text=z) for z in (
        '2000-01-01 03:00', '2000-01-01 03:30')]
    o['files.output_mode'] = [dict(case=dict(mode=z), text=z)
                              for z in ('normal', 'all')]
    o['files.format_output'] = [dict(case=dict(fmt=z), text=str(z))
                                for z in (True, False)]
    return o


DEFAULTS = {
    'measurement_heights.z_u': dict(cfg=dict(z_u=5.)),
    'measurement_heights.z_t': dict(cfg=dict(z_t=5.)),
    'measurement_heights.z_g': dict(cfg=dict(z_g=.5)),
    'measurement_heights.relative_heights': dict(
        cfg=dict(relative_heights=False)),
    'model.norm_time_step': dict(cfg=dict(norm_time_step=60)),
    'model.medium_time_step': dict(cfg=dict(medium_time_step=15)),
    'model.small_time_step': dict(cfg=dict(small_time_step=1)),
    'model.norm_threshold': dict(cfg=dict(norm_threshold=60)),
    'model.medium_threshold': dict(cfg=dict(medium_threshold=10)),
    'model.small_threshold': dict(cfg=dict(small_threshold=1)),
    'model.max_h2o': dict(cfg=dict(max_h2o=.01)),
    'model.max_active': dict(cfg=dict(max_active=.25)),
    'time.time_step': dict(cfg=dict(data_time_step=60)),
    'time.time_zone': dict(case=dict(tz='UTC')),
    'files.output_mode': dict(case=dict(mode='normal')),
    'files.format_output': dict(case=dict(fmt=True)),
    'initial_snow_properties.z_s': dict(init=dict(z_s=0.)),
    'initial_snow_properties.t_s_0': dict(init=dict(t_s_0=F)),
    'initial_snow_properties.t_s': dict(init=dict(t_s=F)),
    'initial_snow_properties.h2o_sat': dict(init=dict(h2o_sat=0.)),
    'initial_snow_properties.z_0': dict(init=dict(z_0=.005)),
}
# a base in which no option has its default value
OTHER = dict(
    cfg=model.cfg(elevation=1500., max_h2o=.02, max_active=.15,
                  data_time_step=60, norm_time_step=30, medium_time_step=10,
                  small_time_step=2, norm_threshold=90, medium_threshold=40,
                  small_threshold=3, z_u=4., z_t=3., z_g=.3,
                  relative_heights=True),
    init=dict(z_s=.3, rho=260., t_s_0=F - 4, t_s=F - 3, h2o_sat=.4, z_0=.002))


def base_case(**kw):
    d = dict(kind='whole', cfg=model.cfg(z_g=.5), init=dict(INIT),
             weather=list(WEATHER), mode='all', fmt=False)
    d.update(kw)
    return d


def change(case, d):
    x = dict(case)
    x['cfg'] = dict(case['cfg'], **d.get('cfg', {}))
    x['init'] = dict(case['init'], **d.get('init', {}))
    x.update(d.get('case', {}))
    return x


def consistent(case):
    c = case['cfg']
    steps = [c['data_time_step']] + [c[k + '_time_step'] for k in (
        'norm', 'medium', 'small')]
    if any(a % b for a, b in zip(steps, steps[1:])):
        return False
    if c['data_time_step'] != 60 and (case.get('sd') or case.get('ed')):
        return False
    return True


class Options(Cases):
    id = 'C20'
    parts = 16
    mixed = True
    technique = 'exhaustive enumeration of option singles, pairs, omissions ' \
        'and file layouts through the whole program, each output judged ' \
        'step by step against the reference model'
    assumptions = ['two to five values per option']

    def bounds(self, tier):
        o = option_values()
        return {'options': len(o), 'single values': sum(map(len, o.values())),
                'pairs': 'every pair of options, first non-default value' + (
                    ' (up to three values each in thorough)'
                    if tier == 'quick' else ', up to three values each'),
                'omissions': 'every option alone, every section, and all'}

    def cases(self, tier):
        o = option_values()
        keys = sorted(o)
        other = base_case(cfg=OTHER['cfg'], init=OTHER['init'])
        for b in (base_case(), other):
            yield b
            for k in keys:
                for v in o[k]:
                    x = change(b, v)
                    if consistent(x):
                        yield x
        for a, b in itertools.combinations(keys, 2):
            k = 3 if tier == 'thorough' else 1
            vs = itertools.product(o[a][:k], o[b][:k])
            for va, vb in vs:
                x = change(change(base_case(), va), vb)
                if consistent(x):
                    yield x
        # omitted options take their documented defaults
        for base in (other, base_case()):
            for k in sorted(DEFAULTS):
                x = change(dict(base, omit=[k]), DEFAULTS[k])
                if consistent(x):
                    yield x
            for sec in ('measurement_heights', 'model',
                        'initial_snow_properties'):
                y = dict(base, omit=[sec + '.*'])
                for k in sorted(DEFAULTS):
                    if k.startswith(sec):
                        y = change(y, DEFAULTS[k])
                if sec == 'initial_snow_properties':
                    y = change(y, dict(init=dict(rho=0.)))
                if consistent(y):
                    yield y
        # layout of the file
        secs = list(driver.sections(base_case(), '/x'))
        for order in (secs[::-1], secs[2:] + secs[:2], secs[3:] + secs[:3],
                      sorted(secs)):
            for up in (False, True):
                yield base_case(order=order, upper=up)
                yield dict(other, order=order, upper=up)

    def judge(self, case, stats):
        return whole.judge(case, stats)


# ------------------------------------------------------------------ C21
ROWS = whole.short_history(7, 2)


CSV_DATES = (None, '%Y-%m-%d %H:%M', '%-m/%-d/%Y %-H:%M',
             '%m/%d/%Y %H:%M:%S', '%Y-%m-%dT%H:%M:%S', '%Y/%m/%d %H:%M',
             '%d %b %Y %H:%M')
INI_DATES = (None, '%m-%d-%Y %H:%M', '%Y-%m-%d %H:%M', '%m/%d/%Y %H:%M',
             '%Y-%m-%dT%H:%M:%S', '%d %B %Y %H:%M')


def oddball(case, rows):
    """rows replaced by nonsense that must not be used"""
    w = model.weather(S_n=900, I_lw=400, t_a=20, rh=.8, u=12, t_g=9, m_pp=80.,
                      ps=.3, rho_snow=70., t_pp=1.)
    ws = list(case['weather'])
    for i in rows:
        ws[i] = w
    return dict(case, weather=ws)


def odd_values():
    """every record that differs from one of three base records in one
    column, and unusual values of each column"""
    out = []
    for b in (space.COLD, space.NEAR, space.HOT):
        b = dict(b, **space.NONE)
        for d in space.deviations(b, 1):
            out.append(model.weather(**d))
        for d in (dict(t_a=-45, e_a=3., I_lw=90), dict(t_a=-40, e_a=.8),
                  dict(S_n=1300.), dict(S_n=-20.), dict(S_n=.01),
                  dict(I_lw=480.), dict(u=.2), dict(u=.01), dict(u=27.),
                  dict(u=38.), dict(t_g=40.),
                  dict(t_g=-30.), dict(m_pp=.001, ps=.001, t_pp=-1.),
                  dict(m_pp=.004, ps=1., t_pp=-30., rho_snow=20.),
                  dict(m_pp=2., ps=.999, t_pp=-2., rho_snow=550.),
                  dict(m_pp=2., ps=.001, t_pp=-2., rho_snow=900.),
                  dict(m_pp=90., ps=0., t_pp=20.),
                  dict(m_pp=5., ps=1., t_pp=6.), dict(t_pp=-60.)):
            out.append(model.weather(**dict(b, **d)))
    return out


def odd_rows(n):
    o = odd_values()
    return [o[i:i + n] + o[:2] for i in range(0, len(o), n - 1)]


class Input(Cases):
    id = 'C21'
    parts = 16
    mixed = True
    technique = 'exhaustive enumeration of row orders, column orders, ' \
        'windows, time zones and precipitation phases through the whole ' \
        'program, judged against the reference model'
    assumptions = ['evenly spaced rows, no missing values']

    def bounds(self, tier):
        return {
            'row orders': 'every permutation of %d rows' % (
                4 if tier == 'quick' else 5),
            'column orders': 'every rotation and reversal, extra columns',
            'windows': 'every start and end (on and between rows) of 7 rows, '
                       'rows outside replaced',
            'time zones': 'UTC, fixed offsets, summer and winter time',
            'values': '%d records that differ from a base record in one '
                      'column' % len(odd_values()),
            'phases': 'precipitation on both sides of every limit'}

    def cases(self, tier):
        n = 4 if tier == 'quick' else 5
        b = base_case(weather=ROWS[:n + 0])
        for p in itertools.permutations(range(n)):
            yield dict(b, rows=list(p), check='same')
        cols = [a for a, _ in driver.COLS]
        for i in range(len(cols)):
            yield base_case(columns=cols[i:] + cols[:i], check='same')
            yield base_case(columns=(cols[i:] + cols[:i])[::-1], check='same')
        for i in range(0, len(cols) + 1):
            yield base_case(columns=cols[:i] + ['other'] + cols[i:],
                            check='same')
            yield base_case(columns=['t_a'] + cols[:i] + ['S_x'] + cols[i:] +
                            ['zzz'], check='same')
        # windows
        t0 = dt.datetime(2000, 1, 1)
        for tz in ('UTC', 'America/Denver'):
            for a in range(0, 6):
                for e in range(a, 6):
                    for ma, me in ((0, 0), (-30, 0), (0, 30), (-30, 30)):
                        sd = t0 + dt.timedelta(hours=a, minutes=ma)
                        ed = t0 + dt.timedelta(hours=e, minutes=me)
                        if sd >= ed:
                            continue    # the configuration rejects it
                        c = base_case(weather=ROWS, tz=tz,
                                      sd=driver.stamp(sd),
                                      ed=driver.stamp(ed))
                        yield c
                        out = [i for i in range(7) if not sd <= t0 +
                               dt.timedelta(hours=i) <= ed +
                               dt.timedelta(hours=1)]
                        if out and (tier == 'thorough' or tz == 'UTC'):
                            yield oddball(c, out)
                            yield dict(oddball(c, out),
                                       rows=list(range(7))[::-1])
        # windows beyond the data
        for sd, ed in (('1999-12-31 20:00', '2000-01-01 03:00'),
                       ('2000-01-01 00:00', '2000-01-01 06:00'),
                       ('2000-01-01 02:00', '2000-01-03 00:00'),
                       ('1999-12-01 00:00', '2000-02-01 00:00')):
            yield base_case(weather=ROWS, sd=sd, ed=ed)
        # the interval of the data is that of its rows
        for d, n in ((30, 30), (180, 60), (15, 15), (120, 60)):
            for sd, ed in ((0, 2), (1, 4), (2, 5), (0, 5)):
                c = base_case(weather=ROWS, omit=['time.time_step'],
                              cfg=model.cfg(z_g=.5, data_time_step=d,
                                            norm_time_step=n,
                                            medium_time_step=15),
                              sd=driver.stamp(t0 + dt.timedelta(
                                  minutes=sd * d)),
                              ed=driver.stamp(t0 + dt.timedelta(
                                  minutes=ed * d)))
                yield c
                yield dict(c, mode='normal')
        # every value of every column, none of them rewritten
        for ws in odd_rows(8):
            yield base_case(weather=ws)
        # time zones, dates
        for tz in ('UTC', 'Etc/GMT+7', 'Etc/GMT-5', 'America/Denver',
                   'Asia/Kolkata', 'Australia/Adelaide', 'US/Pacific'):
            for st in ('2000-01-01 00:00', '2001-07-15 13:00',
                       '2004-02-28 21:00', '1999-12-31 22:00'):
                for mode in ('all', 'normal'):
                    yield base_case(tz=tz, start=st, mode=mode)
        # other ways to write dates and numbers
        whole_numbers = [dict(w, e_a=round(w['e_a']), **dict(
            (k, F + round(w[k] - F)) for k in ('t_a', 't_g', 't_pp')))
            for w in WEATHER]
        for ws in (WEATHER, whole_numbers):
            for st in ('2000-01-02 03:00', '1999-10-12 22:00',
                       '2001-12-31 21:30'):
                for cd, ini in itertools.product(CSV_DATES, INI_DATES):
                    if (cd is None) + (ini is None) + (ws is WEATHER) or \
                            tier == 'thorough':
                        yield base_case(weather=ws, start=st, csvdate=cd,
                                        inidate=ini, compact=True)
        # precipitation phases
        ws = []
        for ps in (0., .3, 1.):
            for tp in (-8., -.01, 0., .01, 4.):
                for m_pp in (0., 2.5):
                    ws.append(model.weather(S_n=50, I_lw=260, t_a=-1., u=2,
                                            rh=.9, m_pp=m_pp, ps=ps, t_pp=tp,
                                            rho_snow=130.))
        for init in (INIT, driver.num and dict(INIT, z_s=0., rho=0.)):
            for k in range(0, len(ws), 5):
                yield base_case(init=init, weather=ws[k:k + 5] + ws[:1])
        for T in (5., -5., -25., 0.):
            for g in (-2., 0., 3.):
                w = model.weather(S_n=80, I_lw=250, t_a=T, t_g=g, u=3)
                yield base_case(weather=[w, w, w])

    def judge(self, case, stats):
        m = whole.judge(case, stats)
        if m or case.get('check') != 'same':
            return m
        # identical to the plain file, to the last digit
        plain = dict(case)
        for k in ('rows', 'columns', 'check'):
            plain.pop(k, None)
        a = driver.run(case)[:2]
        b = driver.run(plain)[:2]
        if a[0] != b[0] or numbers(a[1]) != numbers(b[1]):
            return 'the order of rows or columns changes the output'
        return None


# ------------------------------------------------------------------ C22
def regimes():
    """(configuration, initial state, weather) that cover every regime"""
    ks = space.key_states()
    for i, s in enumerate(ks):
        s = dict(s)
        if 't_s_l' in s:
            s['t_s_l'] = s['t_s']
        yield space.CONFIGS[(0, 5, 6, 3)[i % 4]], s, whole.short_history(7, i)


def memory_record(r):
    """an in-memory output record as CSV cells (driver column names)"""
    out = {}
    for k in driver.OUTCOLS:
        v = float(r[driver.BAR.get(k, k)])
        out[k] = v - F if k in ('t_s', 't_s_0', 't_s_l') else v
    return out


class Output(Cases):
    id = 'C22'
    parts = 12
    mixed = True
    technique = 'exhaustive enumeration of snow regimes x modes x formats ' \
        'through the whole program; CSV cells against an independent run of ' \
        'the model, the reference model and the documented formats'
    assumptions = ['records come from the same process\'s model']

    def bounds(self, tier):
        return {'cases': '%d regimes x 2 modes x 2 formats x 2 time zones' %
                len(list(regimes()))}

    def cases(self, tier):
        n = 2 if tier == 'quick' else 7
        for c, s, w in regimes():
            for k in range(n):
                for mode in ('normal', 'all'):
                    for fmt in (True, False):
                        for tz in ('UTC', 'America/Denver')[
                                :1 if tier == 'quick' else 2]:
                            yield base_case(
                                cfg=c, init=s, weather=w[k:] + w[:k],
                                mode=mode, fmt=fmt, tz=tz)

    def judge(self, case, stats):
        m = whole.judge(case, stats)
        if m:
            return m
        # the CSV against the model run directly with the same data
        try:
            cols, rows, p = driver.run(case)
            c, init = case['cfg'], dict(case['init'])
            init.pop('t_s_l', None)
            sn = model.make(c, init, case['mode'])
            ws = [driver.rain_warm(w)
                  for w in whole.effective(case)['weather']]
            cur = model.record(ws[0])
            recs = []
            for w in ws[1:]:
                nxt = model.record(w)
                sn.do_data_tstep(cur, nxt)
                cur = nxt
            recs = [model.plain(r) for r in sn.output_list]
        except Exception as e:
            why = driver.refused(case, e)
            return None if why else 'the run stops with %s: %s' % (
                type(e).__name__, e)
        if cols[1:] != driver.OUTCOLS:
            return 'columns are %s' % cols
        if len(rows) != len(recs):
            return '%d records in the CSV, %d in the model' % (len(rows),
                                                               len(recs))
        for (t, cells), r in zip(rows, recs):
            want = memory_record(r)
            if len(cells) != len(driver.OUTCOLS):
                return 'a record has %d cells' % len(cells)
            for k, y in zip(driver.OUTCOLS, cells):
                x = want[k]
                if case['fmt']:
                    eps = 1e-9 * max(abs(x), 1.0)
                    ok = y in (whole.FORMAT[k] % x,
                               whole.FORMAT[k] % (x + eps),
                               whole.FORMAT[k] % (x - eps))
                    if not ok and k.startswith('cc_s'):
                        ok = abs(float(y) - x) <= 1e-8 * abs(x) and \
                            len(y.split('e')[0].split('.')[-1]) == 9
                else:
                    # units conversion and reading the CSV back round
                    ok = abs(float(y) - x) <= 1e-9 * max(abs(x), 1.0)
                if not ok:
                    return '%s at %s is %s in the CSV, %r in the model' % (
                        k, t, y, x)
        return None


# ------------------------------------------------------------------ C29
class NoLookAhead(Cases):
    id = 'C29'
    parts = 24
    mixed = True
    technique = 'exhaustive enumeration of pairs of histories with a common ' \
        'prefix: all weather words on the model, all end dates, truncations ' \
        'and changed suffixes through the whole program'
    assumptions = ['identical digits are required']

    def bounds(self, tier):
        return {'model': 'all weather words of length %d over 7 letters, 4 '
                         'snowpacks, grouped by prefix' % self.depth(tier),
                'program': 'every end date, every truncation, every changed '
                           'suffix of a 10-row file, %d sites; %d unusual '
                           'records as the future' % (
                               len(self.sites(tier)), len(odd_values()))}

    def depth(self, tier):
        return 4 if tier == 'quick' else 5

    def sites(self, tier):
        s = list(regimes())
        return s if tier == 'thorough' else s[:5]

    # --- program
    def cases(self, tier):
        for k, (c, s, _) in enumerate(self.sites(tier)):
            w = whole.short_history(10, k)
            for mode in ('normal', 'all'):
                for cut in range(2, 9):
                    for what in ('end', 'file', 'hot', 'snow', 'both'):
                        yield base_case(cfg=c, init=s, weather=w, mode=mode,
                                        cut=cut, what=what)

        # unusual values anywhere in the future leave unusual pasts alone
        odd = odd_values()
        for k, (c, s, _) in enumerate(list(regimes())[5:9:3] if tier == 'quick'
                                     else list(regimes())[3:]):
            w = self.subtle() + whole.short_history(6, k)
            n = len(odd) // 3
            for i, r in enumerate(odd[n:2 * n] if tier == 'quick' else odd):
                yield base_case(cfg=c, init=s, weather=w, mode='all',
                                cut=5, what='row', row=r)
        # and an unusual record is not judged by what follows it
        w = whole.short_history(6, 3)
        c, s, _ = list(regimes())[2]
        for i, r in enumerate(odd):
            if tier == 'thorough' or i % 3 == 2 or r['u'] > 20:
                for what in ('hot', 'snow'):
                    yield base_case(cfg=c, init=s, mode='all', cut=2,
                                    weather=w[:2] + [r] + w[2:], what=what)

    def mixed_cases(self, tier):
        odd = odd_values()
        for i, x in enumerate(mixed.cases(tier)):
            for k in ('sd', 'ed', 'rows', 'columns'):
                x.pop(k, None)
            x = dict(x, tz='UTC', fmt=False, cut=1 + i % 4,
                     what=('hot', 'snow', 'row', 'end', 'file')[i % 5])
            if x['what'] == 'row':
                x['row'] = odd[i % len(odd)]
            yield x

    def subtle(self):
        """records with small, zero or negative values"""
        W = model.weather
        return [W(S_n=-4, I_lw=235, t_a=-4, u=.3, t_g=-4, m_pp=.02, ps=.7,
                  t_pp=-.5, rho_snow=70.),
                W(S_n=3, I_lw=240, t_a=-6, u=.45, t_g=-5, rh=.5),
                W(S_n=.5, I_lw=290, t_a=-1, u=.4, t_g=0, m_pp=.3, ps=1.,
                  t_pp=1., rho_snow=300.),
                W(S_n=150, I_lw=300, t_a=.5, u=.6, t_g=.3, rh=1.2, m_pp=1.,
                  ps=.1, t_pp=.2, rho_snow=90.)]

    def judge(self, case, stats):
        plain = dict(case)
        row = plain.pop('row', None)
        cut, what = plain.pop('cut'), plain.pop('what')
        rows = driver.table(plain)
        other = dict(plain)
        ws = list(plain['weather'])
        if what in ('end', 'both'):
            other['ed'] = driver.stamp(rows[cut - 1][0])
        if what in ('file', 'both'):
            other['weather'] = ws[:cut + 1]
            if what == 'file':
                other['ed'] = driver.stamp(rows[-2][0])
        if what in ('hot', 'snow'):
            w = space.ALPHA[6 if what == 'hot' else 2]
            other['weather'] = ws[:cut + 1] + [w] * (len(ws) - cut - 1)
        if what == 'row':
            rest = len(ws) - cut - 1
            other['weather'] = (ws[:cut + 1] + [row] +
                                [space.ALPHA[6]] * rest)[:len(ws)]
        try:
            a = driver.run(plain)[1]
            b = driver.run(other)[1]
        except Exception as e:
            if driver.refused(case, e) or driver.refused(other, e):
                return None
            return 'valid input, but the run stops with %s: %s' % (
                type(e).__name__, e)
        lim = whole.zoned(rows[cut][0], 'UTC')
        a = [r for r in a if driver.parse_time(r[0]) <= lim]
        b2 = [r for r in b if driver.parse_time(r[0]) <= lim]
        if what not in ('hot', 'snow', 'row') and len(b2) != len(b):
            return 'the shorter run has records after its end'
        a, b2 = numbers(a), numbers(b2)
        if a != b2:
            for x, y in zip(a, b2):
                if x != y:
                    return 'record at %s depends on later data' % x[0]
            return 'the number of records up to %s differs' % lim
        if stats is not None:
            stats.count('prefix pairs')
        return None

    # --- model
    def vt(self, tier):
        return [dict(campaign='words', state=s, first=f, cfg=c,
                     n=self.depth(tier))
                for s, c in ((0, 0), (4, 5), (2, 6), (6, 0))
                for f in range(len(space.ALPHA))]

    def t_words(self, res, t):
        n = t['n']
        al = space.ALPHA
        c = space.CONFIGS[t['cfg']]
        init = space.key_states()[t['state']]
        seen = {}
        for word in itertools.product(range(len(al)), repeat=n - 1):
            word = (t['first'],) + word
            m = self.word(c, init, word, seen, res)
            if m:
                res.bad(dict(kind='words', cfg=c, init=init, pair=m[1]), m[0])
                return

    def word(self, c, init, word, seen, res):
        al = space.ALPHA
        try:
            sn = model.make(c, init)
        except Exception as e:
            return 'cannot start: %s' % e, [list(word)] * 2
        cur = model.record(al[word[0]])
        for k in range(1, len(word)):
            nxt = model.record(al[word[k]])
            try:
                recs = model.step(sn, cur, nxt)
                sig = tuple(tuple(sorted((a, b) for a, b in r.items()))
                            for r in recs)
            except Exception as e:
                sig = 'stopped: %s' % type(e).__name__
                recs = None
            h = hash(sig)
            old = seen.setdefault(word[:k + 1], (h, word))
            if old[0] != h:
                return 'the records of the first %d data steps differ ' \
                    'between two histories that agree so far' % k, [
                        list(old[1]), list(word)]
            if res:
                res.count('transitions')
                res.states.add(h)
            if recs is None:
                break
            cur = nxt
        if res:
            res.count('paths')
        return None

    def r_words(self, case):
        seen = {}
        for w in case['pair']:
            m = self.word(case['cfg'], case['init'], tuple(w), seen, None)
            if m:
                return [m[0]]
        return []


def default_init(s):
    return s


CHECKS = [Options(), Input(), Output(), NoLookAhead()]
_ = (os, explore)
