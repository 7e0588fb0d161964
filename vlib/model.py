"""Drive the real point model one data step at a time and observe it through
its output records.

A model case is a JSON-able dict
    {'kind': 'model', 'cfg': {...}, 'init': {...}, 'weather': [w0, w1, ...]}
Running it gives one Step per run step, read from all-mode output records:
the state reported before, the forcing that the documentation promises for
the step, the step length (difference of time stamps) and the record written.
"""
import copy
import datetime as dt

from . import env  # noqa: F401
from . import ref

T0 = dt.datetime(2000, 1, 1)
FIELDS = ref.STATE + ('cc_s',)
F = ref.FREEZE

BASE = dict(elevation=2061.0, max_h2o=0.01, max_active=0.25,
            data_time_step=60,
            norm_time_step=60, medium_time_step=15, small_time_step=1,
            norm_threshold=60, medium_threshold=10, small_threshold=1,
            z_u=5.0, z_t=5.0, z_g=0.1, relative_heights=False)


def cfg(**kw):
    c = dict(BASE)
    for k in kw:
        assert k in c, k
    c.update(kw)
    return c


def tstep_info(c):
    """The documented tstep_info structure for config c."""
    d = c['data_time_step']
    n, m, s = c['norm_time_step'], c['medium_time_step'], c['small_time_step']
    out = []
    for lvl, (t, name, iv) in enumerate((
            (n, 'norm', d // n), (m, 'medium', n // m), (s, 'small', m // s))):
        out.append(dict(
            level=lvl, output=False, threshold=c[name + '_threshold'],
            time_step=t * 60, time_step_timedelta=dt.timedelta(minutes=t),
            intervals=iv, intervals_per_timestep=d // t))
    return out


def constants(c, init=None):
    """what the reference model needs to know about a configuration"""
    return dict(P_a=ref.air_pressure(c['elevation']), z_g=c['z_g'],
                z_u=c['z_u'], z_t=c['z_t'],
                relative_heights=c['relative_heights'],
                max_z_s_0=c['max_active'], max_h2o_vol=c['max_h2o'],
                small_threshold=c['small_threshold'],
                medium_threshold=c['medium_threshold'],
                norm_threshold=c['norm_threshold'],
                z_0=(init or {}).get('z_0', 0.005))


def params(c):
    return dict(start_date=T0, max_h2o_vol=c['max_h2o'],
                max_z_s_0=c['max_active'],
                relative_heights=c['relative_heights'],
                elevation=c['elevation'])


def heights(c):
    return dict(z_u=c['z_u'], z_t=c['z_t'], z_g=c['z_g'],
                relative_heights=c['relative_heights'])


def make(c, init, mode='all', info=None):
    from pysnobal.point import Snobal
    return Snobal(params(c), info or tstep_info(c), dict(init), heights(c),
                  mode)


def record(w):
    from pysnobal.point import InputData
    return InputData(dict(w))


def state(sn):
    st = sn.snow_state
    return dict((k, float(getattr(st, k))) for k in FIELDS)


def plain(rec):
    """an output record as plain floats (plus its time stamp)"""
    r = dict((k, float(v)) for k, v in rec.items() if k != 'date_time')
    r['date_time'] = rec['date_time']
    return r


def step(sn, cur, nxt):
    """one data step; returns the records it wrote and drops them"""
    n = len(sn.output_list)
    sn.do_data_tstep(cur, nxt)
    recs = [plain(r) for r in sn.output_list[n:]]
    del sn.output_list[:]
    return recs


def fork(*objs):
    return copy.deepcopy(objs)


def ref_initial(init, C):
    """initial state promised by the documentation (temperatures in K)"""
    s = dict((k, 0.0) for k in ref.STATE)
    s.update(z_s=float(init['z_s']), rho=float(init['rho']),
             t_s_0=init['t_s_0'], t_s=init['t_s'],
             t_s_l=init.get('t_s_l', init['t_s']),
             h2o_sat=float(init['h2o_sat']))
    ref.new_pack(s, C)
    s['cc_s'] = s['cc_s_0'] + s['cc_s_l']
    return s


BARE = dict(z_s=0.0, rho=0.0, t_s_0=ref.FREEZE, t_s=ref.FREEZE, h2o_sat=0.0,
            z_0=0.005)


def pack(z_s, rho, t_s_0=268.16, t_s_l=None, h2o_sat=0.0, z_0=0.005, mx=0.25):
    t_s_l = t_s_0 if t_s_l is None else t_s_l
    z0 = min(z_s, mx)
    t_s = (t_s_0 * z0 + t_s_l * (z_s - z0)) / z_s if z_s > mx else t_s_0
    return dict(z_s=z_s, rho=rho, t_s_0=t_s_0, t_s=t_s, t_s_l=t_s_l,
                h2o_sat=h2o_sat, z_0=z_0)


def weather(S_n=0., I_lw=250., t_a=-5., rh=.7, u=3., t_g=0., m_pp=0., ps=0.,
            rho_snow=100., t_pp=None, e_a=None):
    """a weather record; temperatures given in Celsius, humidity relative to
    saturation unless e_a (Pa) is given"""
    ta = t_a + F
    return dict(S_n=S_n, I_lw=I_lw, t_a=ta,
                e_a=ref.sati(ta) * rh if e_a is None else e_a, u=u,
                t_g=t_g + F, m_pp=m_pp, percent_snow=ps, rho_snow=rho_snow,
                t_pp=(t_a if t_pp is None else t_pp) + F)


class Step(object):
    """one observed run step"""
    __slots__ = ('c', 'C', 'pre', 'f', 'dt', 'rec', 'el', 'w1', 'w2', 'k',
                 '_ref', '_turb', 'last')

    def __init__(self, c, C, pre, f, dt, rec, el, w1, w2, k):
        self.c, self.C, self.pre, self.f = c, C, pre, f
        self.dt, self.rec, self.el = dt, rec, el
        self.w1, self.w2, self.k = w1, w2, k
        self._ref = None
        self._turb = None

    @property
    def snow(self):
        return self.pre['layer_count'] > 0

    def turb(self):
        if self._turb is None:
            self._turb = ref.turb(self.pre, self.f, self.C)
        return self._turb

    def E(self):
        if not self.snow:
            return 0.0
        return self.rec['L_v_E_bar'] / ref.lh_turb(self.pre['t_s_0'])

    def fluxes(self):
        return dict((k, self.rec[k + '_bar']) for k in ref.ENERGY)

    def ref(self):
        if self._ref is None:
            self._ref = ref.mass_step(self.pre, self.fluxes(), self.E(),
                                      self.f, self.dt, self.C)
        return self._ref


def steps_of(c, C, pre, w1, w2, recs, t, k=0):
    """Step objects of one data step that started at time t"""
    total = c['data_time_step'] * 60.0
    el = 0.0
    out = []
    for r in recs:
        d = (r['date_time'] - t).total_seconds()
        t = r['date_time']
        f = ref.forcing(w1, w2, el / total, d / total)
        out.append(Step(c, C, pre, f, d, r, el, w1, w2, k))
        el += d
        pre = dict((q, r[q]) for q in FIELDS if q in r)
        if 'layer_count' not in pre:
            pre['layer_count'] = int(r['z_s_0'] > 0) + int(r['z_s_l'] > 0)
        for q in FIELDS:
            pre.setdefault(q, 0.0)
    return out, pre, t


class Stopped(Exception):
    """the model refused to go on; why: 'noconv' | 'heights' | 'crash'"""

    def __init__(self, why, msg, at):
        Exception.__init__(self, msg)
        self.why, self.at = why, at


def near(c, st):
    """the snow has (nearly) reached the instruments: outside the domain of
    the flux equations; where exactly it is refused is not specified"""
    return not c['relative_heights'] and \
        min(c['z_t'], c['z_u']) - st['z_s'] <= 0.3


def classify(exc, c, st):
    m = str(exc)
    if 'converge' in m:
        return 'noconv'
    if near(c, st):
        return 'heights'
    return 'crash'


def run_case(case, mode='all'):
    """list of data steps, each (steps, records); raises Stopped (with .done
    holding what ran) when the model raises"""
    c, init, ws = case['cfg'], case['init'], case['weather']
    C = constants(c, init)
    sn = make(c, init, mode)
    pre = state(sn)
    cur = record(ws[0])
    t = T0
    done = []
    for k in range(len(ws) - 1):
        nxt = record(ws[k + 1])
        try:
            recs = step(sn, cur, nxt)
        except Exception as e:
            recs = [plain(r) for r in sn.output_list]
            s, pre, t = steps_of(c, C, pre, ws[k], ws[k + 1], recs, t, k)
            done.append(s)
            x = Stopped(classify(e, c, pre), '%s: %s' % (type(e).__name__, e),
                        k)
            x.done, x.pre = done, pre
            raise x
        if mode == 'all':
            s, pre, t = steps_of(c, C, pre, ws[k], ws[k + 1], recs, t, k)
            done.append(s)
        else:
            done.append(recs)
        cur = nxt
    return done
