"""The bounded spaces that the model-level checks enumerate: initial
snowpacks, weather records, configurations."""
import csv
import itertools
import os

from . import env, ref
from .model import BARE, cfg, pack, weather

F = ref.FREEZE

# ------------------------------------------------------------- initial states
DEPTHS = [.004, .02, .1, .25, .2501, .26, .3, .6, 1.5, 4.2]
DENS = [50, 99, 100, 150, 300, 549, 550, 560, 600]
TEMPS = [(F, F), (F - .01, F), (F - 2, F - 2), (F - 15, F - 3), (F, F - 5)]
SATS = [0, .5, 1]


def grid_states(depths=DEPTHS, dens=DENS, temps=TEMPS, sats=SATS, z0s=(.005,)):
    out = [dict(BARE)]
    for z, r, (a, b), s, z0 in itertools.product(depths, dens, temps, sats,
                                                 z0s):
        out.append(pack(z, r, a, b, s, z0))
    return out


def key_states():
    """one state per regime: bare, around each mass threshold, one/two layers,
    ripe/cold, dense, deep"""
    return [
        dict(BARE),
        pack(.011, 100, F - 1, None, 0),            # 1.1 kg: about to vanish
        pack(.04, 270, F, None, 1),                 # 10.8 kg: medium threshold
        pack(.2, 310, F - 4, None, 0),              # 62 kg: normal threshold
        pack(.2535, 320, F - .5, F, .5),            # lower layer just there
        pack(.45, 330, F, F, 1),                    # two layers, ripe
        pack(.9, 280, F - 12, F - 2, 0),            # two layers, cold
        pack(1.2, 480, F, F - 1, .3),
        pack(.5, 598, F - 1, F - 1, 1),             # at the density limit
        pack(3.5, 560, F - 3, F - 1, 0),            # deep: close to 2000 kg
        pack(.26, 60, F - 10, F - 8, 0),            # fresh powder
        pack(.02, 99, F - .01, None, 1),            # thin wet
    ]


# ------------------------------------------------------------------- weather
COLD = dict(S_n=0, I_lw=180, t_a=-20, u=2., rh=.6, t_g=-1)
HOT = dict(S_n=600, I_lw=330, t_a=10, u=8, rh=.9, t_g=4)
NEAR = dict(S_n=200, I_lw=280, t_a=.3, u=4, rh=1., t_g=.2)
DRY = dict(S_n=900, I_lw=350, t_a=5, u=15, rh=.2, t_g=10)
DAMP = dict(S_n=20, I_lw=300, t_a=2, u=1., rh=1.15, t_g=-.5)
NONE = dict(m_pp=0., ps=0., t_pp=-3.)
PRECIPS = [
    NONE,
    dict(m_pp=4., ps=1., t_pp=-8.),                 # cold snow
    dict(m_pp=4., ps=1., t_pp=1.),                  # warm snow
    dict(m_pp=4., ps=.5, t_pp=1., rho_snow=180.),   # mixed
    dict(m_pp=6., ps=0., t_pp=4.),                  # rain
    dict(m_pp=.5, ps=1., t_pp=-3., rho_snow=60.),   # light snow
    dict(m_pp=60., ps=.9, t_pp=-3.),                # heavy mixed, cold
    dict(m_pp=30., ps=0., t_pp=-1.),                # heavy rain, cold data
    dict(m_pp=0., ps=1., t_pp=2., rho_snow=0.),     # nothing, odd columns
    dict(m_pp=1.3, ps=.99, t_pp=0., rho_snow=400.),
    dict(m_pp=25., ps=1., t_pp=-12., rho_snow=50.),
    dict(m_pp=3., ps=.02, t_pp=.5, rho_snow=120.),
]


def archetypes(bases=(COLD, HOT, NEAR, DRY), precips=PRECIPS):
    return [weather(**dict(b, **p)) for b in bases for p in precips]


# single and double deviations from a base record
VALUES = dict(
    S_n=[-6, 0, 50, 400, 1000],
    I_lw=[120, 200, 300, 420],
    t_a=[-30, -20, -5, -.01, .01, 3, 15, 30],
    rh=[.05, .4, .9, 1.0, 1.3],
    u=[0., .05, .5, 2, 8, 15],
    t_g=[-10, -1, -.01, .01, .5, 8, 20],
    precip=PRECIPS + [dict(m_pp=150., ps=1., t_pp=-5., rho_snow=80.),
                      dict(m_pp=.01, ps=.5, t_pp=2.),
                      dict(m_pp=12., ps=0., t_pp=24.)],
)


def deviations(base, n=2):
    """all records that differ from base in at most n of the fields"""
    keys = list(VALUES)
    yield dict(base)
    for k in range(1, n + 1):
        for ks in itertools.combinations(keys, k):
            for vs in itertools.product(*[VALUES[q] for q in ks]):
                d = dict(base)
                for q, v in zip(ks, vs):
                    if q == 'precip':
                        d.update(v)
                    else:
                        d[q] = v
                yield d


# alphabet of the sequence exploration (simplest first)
ALPHA = [
    weather(**dict(COLD, **NONE)),                                  # refreeze
    weather(S_n=800, I_lw=340, t_a=12, u=6, rh=.7, t_g=3),          # melt
    weather(**dict(COLD, m_pp=14., ps=1., t_pp=-9., rho_snow=70.)),  # snowfall
    weather(S_n=0, I_lw=320, t_a=6, u=5, rh=1.0, t_g=1, m_pp=9., ps=0.,
            t_pp=5.),                                               # rain
    weather(S_n=60, I_lw=300, t_a=.4, u=3, rh=1.0, t_g=.3, m_pp=3., ps=.6,
            t_pp=.5, rho_snow=150.),                                # mixed
    weather(S_n=500, I_lw=250, t_a=-2, u=18, rh=.15, t_g=6),        # dry wind
    weather(S_n=1000, I_lw=420, t_a=25, u=12, rh=.6, t_g=15, m_pp=2., ps=0.,
            t_pp=12.),                                              # ablation
]

# ------------------------------------------------------------ configurations
CONFIGS = [
    cfg(),
    cfg(medium_time_step=30, small_time_step=10),
    cfg(medium_time_step=60, small_time_step=60, medium_threshold=50,
        small_threshold=30),
    cfg(medium_time_step=20, small_time_step=4),
    cfg(medium_time_step=12, small_time_step=12),
    cfg(data_time_step=180, medium_time_step=20, small_time_step=5),
    cfg(data_time_step=60, norm_time_step=30, medium_time_step=10,
        small_time_step=2),
    cfg(data_time_step=30, norm_time_step=30, medium_time_step=15,
        small_time_step=5),
    cfg(data_time_step=180, norm_time_step=180, medium_time_step=60,
        small_time_step=6),
    cfg(norm_threshold=200, medium_threshold=100, small_threshold=5),
    cfg(norm_threshold=20, medium_threshold=5, small_threshold=3),
    cfg(norm_threshold=10, medium_threshold=60, small_threshold=1),
    cfg(norm_threshold=150, medium_threshold=150, small_threshold=1,
        medium_time_step=10, small_time_step=5),
    cfg(max_active=.1), cfg(max_active=.6), cfg(max_active=.05, small_threshold=2),
    cfg(max_h2o=.03), cfg(max_h2o=.0005), cfg(max_h2o=.1),
    cfg(elevation=0.), cfg(elevation=4000.), cfg(elevation=-200.),
    cfg(z_u=30., z_t=30.), cfg(z_u=10., z_t=6.), cfg(z_u=6., z_t=12.),
    cfg(relative_heights=True), cfg(relative_heights=True, z_u=2., z_t=1.5),
    cfg(z_g=.5), cfg(z_g=1.), cfg(z_g=.02), cfg(max_h2o=0.),
    cfg(max_active=.25, norm_threshold=32, medium_threshold=32,
        small_threshold=32, medium_time_step=30, small_time_step=30),
]

def special():
    """(configuration, snowpack, weather) that only make sense together: a
    lower layer with nearly all of the mass, a heavy minimum mass and long
    steps, so that both layers vanish at once"""
    warm = [ALPHA[1], ALPHA[6], weather(**dict(
        S_n=900, I_lw=400, t_a=12, u=5, rh=.8, t_g=1, **NONE))]
    for thr, z, rho in ((25, .112, 250), (25, .08, 400), (20, .2, 150),
                        (50, .112, 480)):
        for act in (.002, .01):
            c = cfg(max_active=act, norm_threshold=thr, medium_threshold=thr,
                    small_threshold=thr, medium_time_step=60,
                    small_time_step=60, max_h2o=.001)
            for a in warm:
                for b in warm:
                    yield c, pack(z, rho, F - .01, F - .01, 0), [a, b, b, b]
    # steps dry enough to take more than there is
    dry = [weather(**dict(DRY, t_a=-2, u=20, rh=.1, S_n=x, **NONE))
           for x in (0, 200, 400, 500, 600)]
    for k in (dict(medium_time_step=60, small_time_step=60),
              dict(data_time_step=180, norm_time_step=180,
                   medium_time_step=180, small_time_step=180)):
        c = cfg(small_threshold=1, **k)
        for m, rho, t, s in itertools.product(
                (1.02, 1.1, 1.3, 2., 3.)[:5 if c['data_time_step'] > 60 else 2],
                (150, 400), (F, F - 1), (0, 1)):
            for w in dry:
                yield c, pack(m / rho, rho, t, t, s), [w, w]
    # many short steps
    for m, s in itertools.product((180, 2, 90), (2, 1)):
        c = cfg(data_time_step=180, norm_time_step=180, medium_time_step=m,
                small_time_step=s if m > 2 else 1, medium_threshold=60 if
                m > 2 else 10, small_threshold=1)
        for z, rho in ((.06, 200), (.02, 250)):
            for w in (ALPHA[0], ALPHA[2], ALPHA[5])[s - 1:]:
                yield c, pack(z, rho, F - 3, F - 1, 0), [w, w]


DEEP = [cfg(relative_heights=True),
        cfg(relative_heights=True, medium_time_step=60, small_time_step=60),
        cfg(relative_heights=True, data_time_step=180, norm_time_step=180),
        cfg(relative_heights=True, norm_time_step=30, medium_time_step=15)]


def deep(c):
    """deeper than the instruments' masts, up to 7800 kg/m2"""
    for z in (4.2, 6., 9., 14.):
        for rho in (150, 250, 400, 480, 540, 560):
            for a, b in ((F - 12, F - 2), (F - 1, F - 4), (F, F)):
                for w in ALPHA:
                    yield c, pack(z, rho, a, b, .5), [w, w, ALPHA[2]]


WEATHER_PAIRS = [
    (weather(**dict(COLD, **NONE)), ALPHA[1]),
    (ALPHA[1], ALPHA[3]),
    (ALPHA[2], ALPHA[0]),
    (ALPHA[3], ALPHA[2]),
    (ALPHA[4], ALPHA[1]),
    (ALPHA[5], ALPHA[6]),
    (ALPHA[6], ALPHA[0]),
]

# step tables small enough to enumerate every division pattern
SCRIPT_CONFIGS = [
    cfg(medium_time_step=15, small_time_step=5),
    cfg(data_time_step=120, norm_time_step=60, medium_time_step=30,
        small_time_step=10),
    cfg(data_time_step=60, norm_time_step=20, medium_time_step=20,
        small_time_step=10),
    cfg(data_time_step=90, norm_time_step=90, medium_time_step=30,
        small_time_step=15),
    cfg(data_time_step=180, norm_time_step=180, medium_time_step=180,
        small_time_step=2),
    cfg(data_time_step=120, norm_time_step=120, medium_time_step=60,
        small_time_step=1),
]


def script_states():
    """heavy enough to survive any division without changing the answers'
    meaning: one layer, two layers, ripe"""
    return [pack(.2, 400, F - 4, None, 0), pack(.7, 350, F - 6, F - 1, 0),
            pack(.6, 400, F, F, 1)]


GOLD = os.path.join(env.REPO, 'pysnobal/tests/test_data_point/gold_csv/25year')
NAMES = dict(net_solar='S_n', incoming_thermal='I_lw', air_temp='t_a',
             vapor_pressure='e_a', wind_speed='u', soil_temp='t_g',
             precip_mass='m_pp', percent_snow='percent_snow',
             rho_snow='rho_snow', precip_temp='t_pp')


def gold_year(y):
    """weather records of one of the repository's input files"""
    path = os.path.join(GOLD, 'wy%d.input.csv' % y)
    if not os.path.exists(path):
        return None
    out = []
    with open(path) as f:
        for r in csv.DictReader(f):
            w = dict((b, float(r[a])) for a, b in NAMES.items())
            for k in ('t_a', 't_g', 't_pp'):
                w[k] += F
            out.append(w)
    return out
