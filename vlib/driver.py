"""Runs of the whole program: configuration file + CSV in, CSV out (PyPy)."""
import csv
import datetime as dt
import math
import os
import shutil
import tempfile

from . import model, ref

F = ref.FREEZE
COLS = [('net_solar', 'S_n'), ('incoming_thermal', 'I_lw'), ('air_temp', 't_a'),
        ('vapor_pressure', 'e_a'), ('wind_speed', 'u'), ('soil_temp', 't_g'),
        ('precip_mass', 'm_pp'), ('percent_snow', 'percent_snow'),
        ('rho_snow', 'rho_snow'), ('precip_temp', 't_pp')]
TEMP = ('t_a', 't_g', 't_pp')
OUTCOLS = ['R_n', 'H', 'L_v_E', 'G', 'M', 'delta_Q', 'G_0', 'delta_Q_0',
           'cc_s_0', 'cc_s_l', 'cc_s', 'E_s', 'melt', 'swi', 'z_s_0', 'z_s_l',
           'z_s', 'rho', 'm_s_0', 'm_s_l', 'm_s', 'h2o', 't_s_0', 't_s_l',
           't_s']
BAR = dict([(k, k + '_bar') for k in ref.ENERGY] +
           [(k, k + '_sum') for k in ('E_s', 'melt', 'swi')])


class Scratch(object):
    """a directory of our own that goes away"""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='pysnobal-verif-')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def num(x):
    return repr(float(x))


def celsius(w):
    return dict((k, v - F if k in TEMP else v) for k, v in w.items())


def stamp(t, style=None):
    """style: another way to write the date; - means without leading zeros"""
    style = style or '%Y-%m-%d %H:%M:%S'
    for k, v in (('%-m', t.month), ('%-d', t.day), ('%-H', t.hour)):
        style = style.replace(k, str(v))
    return t.strftime(style)


def when(s):
    f = '%Y-%m-%d %H:%M:%S' if len(s) > 16 else '%Y-%m-%d %H:%M'
    return dt.datetime.strptime(s, f)


def short(x):
    """the shortest text of a number that was meant to have few digits"""
    x = round(float(x), 9)
    return str(int(x)) if x == int(x) else repr(x)


def table(case):
    """[(time, {csv column: text})] of a case"""
    c = case['cfg']
    t = dt.datetime.strptime(case.get('start', '2000-01-01 00:00'),
                             '%Y-%m-%d %H:%M')
    out = []
    for i, w in enumerate(case['weather']):
        w = celsius(w)
        out.append((t + dt.timedelta(minutes=c['data_time_step'] * i),
                    dict((a, (short if case.get('compact') else num)(w[b]))
                         for a, b in COLS)))
    return out


def write_csv(path, rows, columns=None, style=None, index='date_time'):
    columns = columns or [a for a, _ in COLS]
    with open(path, 'w') as f:
        f.write(','.join([index] + columns) + '\n')
        for t, r in rows:
            f.write(','.join([stamp(t, style)] + [r.get(k, '7') for k in columns]) +
                    '\n')


def refused(case, exc):
    """why a whole run may stop: 'noconv' | 'heights', else None"""
    m = str(exc)
    if 'converge' in m:
        return 'noconv'
    c = case['cfg']
    if not c['relative_heights'] and 'height' in m:
        # all the snow that falls, without settling
        z = case['init']['z_s'] + sum(
            w['m_pp'] * w['percent_snow'] / (w.get('rho_snow') or 50.)
            for w in case['weather'])
        if min(c['z_t'], c['z_u']) - z <= 0.3:
            return 'heights'
    return None


def sections(case, d):
    """the configuration file as {section: {option: text}}; case['omit'] is a
    list of section.option left to their defaults"""
    c, init = case['cfg'], case['init']
    rows = table(case)
    sd = when(case['sd']) if case.get('sd') else rows[0][0]
    ed = when(case['ed']) if case.get('ed') else rows[-2][0]
    num = short if case.get('compact') else globals()['num']
    s = dict(
        topo=dict(elevation=num(c['elevation'])),
        time=dict(start_date=stamp(sd, case.get('inidate')),
                  end_date=stamp(ed, case.get('inidate')),
                  time_zone=case.get('tz', 'UTC'),
                  time_step=str(c['data_time_step'])),
        measurement_heights=dict(
            z_u=num(c['z_u']), z_t=num(c['z_t']), z_g=num(c['z_g']),
            relative_heights=str(c['relative_heights'])),
        model=dict([(k, str(c[k])) for k in (
            'norm_time_step', 'medium_time_step', 'small_time_step',
            'norm_threshold', 'medium_threshold', 'small_threshold')] +
            [(k, num(c[k])) for k in ('max_h2o', 'max_active')]),
        files=dict(input_csv=os.path.join(d, 'in.csv'),
                   output_csv=os.path.join(d, 'out.csv'),
                   output_mode=case.get('mode', 'all'),
                   format_output=str(case.get('fmt', False))),
        initial_snow_properties=dict(
            z_s=num(init['z_s']), rho=num(init['rho']),
            t_s_0=num(init['t_s_0'] - F), t_s=num(init['t_s'] - F),
            h2o_sat=num(init['h2o_sat']), z_0=num(init['z_0'])))
    for k, v in (case.get('set') or {}).items():
        a, b = k.split('.')
        s[a][b] = v
    for k in case.get('omit') or ():
        if k.startswith('drop '):
            del s[k[5:]]
            continue
        a, b = k.split('.')
        if b == '*':
            s[a] = {}
        else:
            s[a].pop(b, None)
    return s


def write_ini(path, secs, order=None, upper=False):
    names = [n for n in order or secs if n in secs]
    with open(path, 'w') as f:
        for n in names:
            f.write('[%s]\n' % (n.upper() if upper else n))
            for k, v in secs[n].items():
                f.write('%s: %s\n' % (k.upper() if upper else k, v))
            f.write('\n')


def prepare(case, d):
    """write the files of a case, return the path of the configuration"""
    rows = table(case)
    if case.get('rows') is not None:
        rows = [rows[i] for i in case['rows']]
    write_csv(os.path.join(d, 'in.csv'), rows, case.get('columns'),
              case.get('csvdate'))
    p = os.path.join(d, 'c.ini')
    write_ini(p, sections(case, d), case.get('order'), case.get('upper'))
    return p


def parse_time(s):
    """aware datetime of an output time stamp"""
    s = s.strip()
    off = None
    if len(s) > 19 and s[-6] in '+-' and s[-3] == ':':
        sign = -1 if s[-6] == '-' else 1
        off = dt.timezone(sign * dt.timedelta(hours=int(s[-5:-3]),
                                              minutes=int(s[-2:])))
        s = s[:-6]
    if '.' in s:
        s = s.split('.')[0]
    f = '%Y-%m-%d %H:%M:%S' if len(s) > 16 else '%Y-%m-%d %H:%M'
    t = dt.datetime.strptime(s.replace('T', ' '), f)
    return t.replace(tzinfo=off) if off is not None else t


def read_out(path):
    """(columns, [(time text, [cell text])])"""
    with open(path) as f:
        rows = list(csv.reader(f))
    return rows[0], [(r[0], r[1:]) for r in rows[1:]]


def run(case):
    """(columns, rows, object) of a run"""
    from pysnobal.pysnobal import PySnobal
    with Scratch() as d:
        p = PySnobal(prepare(case, d))
        p.run()
        cols, rows = read_out(os.path.join(d, 'out.csv'))
    return cols, rows, p


def to_record(cols, row):
    """an output row in the form of an in-memory record (K)"""
    r = {}
    for k, v in zip(cols[1:], row[1]):
        r[BAR.get(k, k)] = float(v) + (F if k in ('t_s', 't_s_0', 't_s_l')
                                       else 0.0)
    r['date_time'] = parse_time(row[0])
    return r


def naive(t, off):
    return t.astimezone(off).replace(tzinfo=None) if t.tzinfo else t


def as_steps(case, cols, rows):
    """model.Step lists per data step from an all-mode unformatted CSV"""
    c, init = case['cfg'], case['init']
    C = model.constants(c, init)
    pre = model.ref_initial(init, C)
    recs = [to_record(cols, r) for r in rows]
    t0 = table(case)[0][0]
    if recs and recs[0]['date_time'].tzinfo is not None:
        # cases with a fixed offset only
        t0 = t0.replace(tzinfo=recs[0]['date_time'].tzinfo)
    ws = case['weather']
    D = dt.timedelta(minutes=c['data_time_step'])
    out = []
    i = 0
    t = t0
    for k in range(len(ws) - 1):
        end = t0 + D * (k + 1)
        j = i
        while j < len(recs) and recs[j]['date_time'] <= end:
            j += 1
        st, pre, t = model.steps_of(c, C, pre, rain_warm(ws[k]),
                                    rain_warm(ws[k + 1]), recs[i:j], t, k)
        out.append(st)
        i = j
    return out, recs[i:]


def rain_warm(w):
    if w['m_pp'] * (1 - w['percent_snow']) > 0 and w['t_pp'] < F:
        return dict(w, t_pp=F)
    return w


def debruijn(k, n):
    """cyclic sequence over range(k) containing every word of length n"""
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


def finite(x):
    return math.isfinite(x)
