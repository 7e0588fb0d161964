"""Histories in which every combination of values of any three factors occurs.

The factors are everything a short history consists of (configuration, initial
snowpack, three weather records), each with up to eleven levels.  The rows are an
orthogonal array of strength three: the codewords of a linear code over GF(q)
whose columns are the points of an elliptic quadric in PG(3, q), no three of
which are collinear.  q**4 rows therefore contain every triple of levels of
every three of up to q**2 + 1 factors, each exactly q times."""
from . import ref
from .model import BARE, cfg, pack, weather

F = ref.FREEZE

CONFIG = [
    ('steps', [(60, 60, 15, 1), (60, 60, 15, 5), (60, 30, 10, 2),
               (120, 60, 15, 3), (180, 60, 15, 3), (60, 30, 3, 3),
               (30, 30, 15, 1), (60, 20, 10, 1), (45, 45, 15, 3),
               (60, 15, 5, 5), (90, 30, 15, 3)]),
    ('thresholds', [(60, 10, 1), (200, 100, 5), (40, 15, 3), (60, 60, 20),
                    (100, 30, 2), (80, 40, 1), (150, 15, 8)]),
    ('max_active', [.25, .05, .1, .2, .3, .4, .6, .15, .35, .5, .08]),
    ('max_h2o', [.01, .0005, .005, .02, .03, .05, .1, .002, .015, .04, .07]),
    ('elevation', [2061., -200., 0., 700., 1500., 3000., 4000., 300.,
                   1100., 2500., 3500.]),
    ('z_u', [5., 4., 6., 8., 10., 15., 30.]),
    ('z_t', [5., 4.5, 3.5, 6., 8., 12., 25.]),
    ('relative_heights', [False, True]),
    ('z_g', [.1, .03, .05, .2, .4, .7, 1.]),
]
SNOW = [
    ('z_s', [.3, 0, .03, .12, .2, .7, 2.2, .06, .26, .45, 1.3]),
    ('rho', [250, 60, 100, 160, 400, 548, 600, 80, 200, 320, 480]),
    ('t_s_0', [-4, 0, -.01, -.5, -1.5, -9, -20, 0, -2.5, -6, -13]),
    ('t_s_l', [-3, 0, -.01, -.5, -1.5, -7, -14, 0, -2, -5, -10]),
    ('h2o_sat', [0, .05, .25, .5, .8, .99, 1, 0, .1, .65, .4]),
    ('z_0', [.005, .0005, .001, .002, .003, .01, .02]),
]
RECORD = [
    ('S_n', [0, -6, 25, 120, 300, 600, 1000, 60, 200, 450, 800]),
    ('I_lw', [250, 130, 180, 220, 300, 340, 410, 155, 200, 275, 320]),
    ('t_a', [-5, -25, -12, -.01, .5, 6, 18, -18, -8, -2, 11]),
    ('rh', [.7, .05, .3, .9, 1, 1.1, 1.4, .15, .5, .98, 1.01]),
    ('u', [3, 0, .3, .8, 1.5, 6, 10, .1, 2, 4, 8]),
    ('t_g', [0, -12, -3, -.5, .01, 3, 12, -7, -1.5, 1, 6]),
    ('m_pp', [0, .02, .5, 3, 9, 20, 45, 0, 1.5, 6, 0]),
    ('ps', [1, 0, .01, .3, .6, .95, .999, 1, 0, .8, .45]),
    ('rho_snow', [100, 40, 60, 90, 150, 300, 500, 50, 75, 120, 200]),
    ('t_pp', [-3, -15, -.01, 0, .3, 2, 9, -8, -1, 1, 5]),
]
FACTORS = CONFIG + SNOW + [(k + str(i), v) for i in range(3)
                           for k, v in RECORD]


def points(q):
    """the elliptic quadric x0 x1 + N(x2, x3) = 0 in PG(3, q)"""
    sq = set(x * x % q for x in range(q))
    # N(x, y) = x^2 + x y + b y^2 without roots: 1 - 4 b is no square
    b = next(b for b in range(1, q) if (1 - 4 * b) % q not in sq)
    out = [(1, 0, 0, 0)]
    for x2 in range(q):
        for x3 in range(q):
            out.append((-(x2 * x2 + x2 * x3 + b * x3 * x3) % q, 1, x2, x3))
    return out


def rows(q):
    """level numbers of every row of the array"""
    P = points(q)[:len(FACTORS)]
    assert len(P) == len(FACTORS)
    for i in range(q ** 4):
        v = (i % q, i // q % q, i // q ** 2 % q, i // q ** 3)
        yield [sum(a * b for a, b in zip(v, p)) % q for p in P]


def history(row):
    f = dict((k, v[i % len(v)]) for (k, v), i in zip(FACTORS, row))
    s, t = f['steps'], f['thresholds']
    c = cfg(data_time_step=s[0], norm_time_step=s[1], medium_time_step=s[2],
            small_time_step=s[3], norm_threshold=t[0], medium_threshold=t[1],
            small_threshold=t[2], **dict((k, f[k]) for k, _ in CONFIG[2:]))
    init = dict(BARE, z_0=f['z_0'])
    if f['z_s'] > 0:
        init = pack(f['z_s'], f['rho'], F + f['t_s_0'], F + f['t_s_l'],
                    f['h2o_sat'], f['z_0'], c['max_active'])
    ws = [weather(**dict((k, f[k + str(i)]) for k, _ in RECORD))
          for i in range(3)]
    return c, init, ws


def order(tier):
    return 17 if tier == 'thorough' else 11


def describe(tier):
    q = order(tier)
    return 'every combination of values of any three of the %d factors of a ' \
        'configuration, a snowpack and three weather records, %d histories' % (
            len(FACTORS), q ** 4)
