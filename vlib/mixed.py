"""Whole runs in which every combination of values of any three factors of
everything a run consists of occurs: the factors of vlib/triples.py and those of
the files (modes, formats, time zones, dates, windows, row and column order)."""
import datetime as dt

from . import driver, model, triples

FILES = [
    ('out', [('all', False), ('normal', False), ('all', True),
             ('normal', True)]),
    ('when', [('UTC', '2000-01-01 00:00'), ('America/Denver',
                                            '2001-01-15 17:00'),
              ('Etc/GMT+7', '2004-02-28 21:00'), ('Asia/Kolkata',
                                                  '1999-12-31 22:30'),
              ('Etc/GMT-5', '2001-07-15 13:17'),
              ('Australia/Adelaide', '1983-12-01 08:00'),
              ('UTC', '1996-02-28 23:45')]),
    # first and last row used, and minutes before / after them
    ('window', [None, (0, 3, 0, 0), (1, 4, 0, 0), (1, 3, -5, 5),
                (0, 4, -90, 7), (2, 4, 0, 0), (0, 2, 0, 9)]),
    ('rows', [None, [5, 4, 3, 2, 1, 0], [1, 2, 3, 4, 5, 0], [0, 2, 1, 4, 3, 5],
              [3, 0, 4, 1, 5, 2], [0, 1, 2, 3, 5, 4], [5, 0, 1, 2, 3, 4]]),
    ('layout', range(7)),
]
FACTORS = triples.FACTORS + FILES
WEATHER = (0, 1, 2, 0, 2, 1)


def rows(q, thin=False):
    """level numbers; thin: a subcode with q**3 words"""
    P = triples.points(q)[:len(FACTORS)]
    assert len(P) == len(FACTORS)
    for i in range(q ** (3 if thin else 4)):
        v = (i % q, i // q % q, i // q ** 2 % q, i // q ** 3)
        if thin:    # a hyperplane that is in no way special
            v = v[:3] + ((v[0] + 2 * v[1] + 3 * v[2]) % q,)
        yield [sum(a * b for a, b in zip(v, p)) % q for p in P]


def case(row, shift=0):
    n = len(triples.FACTORS)
    q = 7
    row = [r + shift * q if len(v) > q else r
           for r, (_, v) in zip(row, FACTORS)]
    c, init, ws = triples.history(row[:n])
    f = dict((k, v[i % len(v)]) for (k, v), i in zip(FILES, row[n:]))
    init = dict(init)
    if 't_s_l' in init:
        init['t_s_l'] = init['t_s']
    x = dict(kind='whole', cfg=c, init=init, weather=[ws[i] for i in WEATHER],
             mode=f['out'][0], fmt=f['out'][1], tz=f['when'][0],
             start=f['when'][1])
    if f['window']:
        a, b, ma, mb = f['window']
        t = dt.datetime.strptime(x['start'], '%Y-%m-%d %H:%M')
        D = c['data_time_step']
        x['sd'] = driver.stamp(t + dt.timedelta(minutes=a * D + ma))
        x['ed'] = driver.stamp(t + dt.timedelta(minutes=b * D + mb))
    if f['rows']:
        x['rows'] = f['rows']
    cols = [a for a, _ in driver.COLS]
    k = f['layout']
    if k in (1, 2, 3):
        cols = cols[3 * k:] + cols[:3 * k]
        x['columns'] = cols[::-1] if k == 2 else cols[:4] + ['x'] + cols[4:]
    if k in (3, 4):
        x['upper'] = True
    if k in (4, 5):
        x['order'] = sorted(driver.sections(x, '/x'), reverse=k == 4)
    if k == 6:
        x['omit'] = ['time.time_step']
    return x


def cases(tier):
    if tier == 'thorough':
        for row in rows(7):
            yield case(row)
        for row in rows(7, True):
            yield case(row, 1)
    else:
        for i, row in enumerate(rows(7, True)):
            yield case(row, i % 2)


def count(tier):
    return 343 if tier == 'quick' else 7 ** 4 + 343


_ = model
