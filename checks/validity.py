"""C25 invalid input is rejected, valid input is not; C28 the initial
snowpack."""
import copy
import itertools
import math
import os

from vlib import driver, explore, model, ref, space, whole
from vlib.base import Check
from checks.program import INIT, base_case

F = ref.FREEZE


# ---------------------------------------------------------------------- C25
class Validity(Check):
    id = 'C25'
    technique = 'enumeration of the boundary lattice of every argument ' \
        '(single and double deviations), of all small step tables and of all ' \
        'incomplete configurations, on the real functions and the whole ' \
        'program'
    assumptions = ['measurement heights between the roughness length and ten '
                   'times it are not judged: the displacement height lies '
                   'between them', 'an exit counts as a rejection']
    P, Z0 = 8.5e4, .005
    # argument -> [(value, valid)]; ea and es are relative to the rest
    ARGS = dict(
        press=[(P, 1), (4e4, 1), (1.05e5, 1), (0., 0), (-1., 0), (-P, 0)],
        ta=[(F - 3, 1), (F + 25, 1), (F - 40, 1), (F, 1), (0., 0), (-1., 0),
            (-F, 0)],
        ts=[(F - 5, 1), (F, 1), (F - 45, 1), (F + .5, 1), (0., 0), (-.5, 0),
            (-F, 0)],
        za=[(5., 1), (.06, 1), (30., 1), (Z0, 0), (Z0 / 2, 0), (0., 0),
            (-5., 0)],
        zq=[(5., 1), (.06, 1), (30., 1), (Z0, 0), (Z0 / 2, 0), (0., 0),
            (-5., 0)],
        zu=[(5., 1), (.06, 1), (30., 1), (Z0, 0), (Z0 / 2, 0), (0., 0),
            (-5., 0)],
        z0=[(Z0, 1), (.001, 1), (.0001, 1), (0., 0), (-.005, 0), (5., 0),
            (31., 0)],
        u=[(3., 1), (0., 1), (.1, 1), (15., 1)],
        ea=[('rh .7', 1), ('sat', 1), ('sat +20', 1), ('sat +26', 0),
            ('sat +500', 0), (1e-3, 1), (0., 0), (-1., 0), (-600., 0),
            ('press', 0), ('press +1', 0)],
        es=[('rh .7', 1), ('sat', 1), (1e-3, 1), (0., 0), (-1., 0),
            ('press', 0), ('press +1', 0)])
    ORDER = ['press', 'ta', 'ts', 'za', 'ea', 'es', 'zq', 'u', 'zu', 'z0']
    STEPS = ([60, 30, 180], [60, 45, 30, 20, 120, 0, -60],
             [15, 7, 30, 60, 90, 0, -15], [1, 5, 4, 15, 7, 0, -1])

    def bounds(self, tier):
        return {'flux function': 'every combination of at most %d deviations '
                'from a valid call' % self.order(tier),
                'precipitation': 'every combination of mass, snow fraction '
                'and snow density',
                'step tables': 'all %d of %s' % (
                    len(list(self.tables(tier))), self.STEPS),
                'configurations': '%d incomplete or unusable ones' % len(
                    self.configs()),
                'model': 'snow depth x measurement heights x roughness; '
                'humidity and temperature of the weather records'}

    def order(self, tier):
        return 2 if tier == 'quick' else 3

    def vt(self, tier):
        return [dict(campaign='hle1', first=k, order=self.order(tier))
                for k in self.ORDER] + [
            dict(campaign='precip'), dict(campaign='heights'),
            dict(campaign='air')]

    def pp(self, tier):
        return [dict(campaign='tables', part=i, of=8, tier=tier)
                for i in range(8)] + [
            dict(campaign='configs', part=i, of=4) for i in range(4)]

    # ------------------------------------------------------- flux function
    def values(self, d):
        """positional arguments and validity of a call with deviations d"""
        a, ok = {}, True
        for k in self.ORDER:
            v, good = self.ARGS[k][d.get(k, 0)]
            a[k] = v
            ok = ok and (good or k[0] == 'z')
        for k, t in (('ea', a['ta']), ('es', a['ts'])):
            if not isinstance(a[k], str):
                continue
            w = a[k].split()
            if w[0] == 'press':
                a[k] = a['press']
            else:
                a[k] = ref.satw(t) if t > 0 else 500.
                if w[0] == 'rh':
                    a[k] *= .7
            if len(w) > 1 and w[1][0] == '+':
                a[k] += float(w[1])
        if a['z0'] <= 0 or a['z0'] >= min(a['za'], a['zq'], a['zu']):
            ok = False
        elif ok and min(a['za'], a['zq'], a['zu']) < 10 * a['z0']:
            ok = None                       # not specified
        if ok and (a['ea'] >= a['press'] or a['es'] >= a['press'] or
                   a['ea'] > ref.satw(a['ta']) + 25):
            ok = False
        # an absolute vapour pressure may exceed saturation in cold air
        return [a[k] for k in self.ORDER], ok

    def t_hle1(self, res, t):
        ks = self.ORDER
        rest = [k for k in ks if k > t['first']]
        sets = [()]
        for n in range(1, t['order']):
            sets += list(itertools.combinations(rest, n))
        for more in sets:
            names = (t['first'],) + more
            for vs in itertools.product(*[range(len(self.ARGS[k]))
                                          for k in names]):
                case = dict(kind='call', d=dict(zip(names, vs)))
                m = self.call(case, res)
                res.count('transitions')
                res.count('paths')
                res.states.add(explore.digest(sorted(case['d'].items())))
                if m:
                    res.bad(case, m)
                    if len(res.violations) > 2:
                        return

    def call(self, case, res=None):
        from pysnobal.point import libsnobal
        a, ok = self.values(case['d'])
        if ok is None:
            return None
        try:
            out = libsnobal.hle1(*a)
        except Exception as e:
            if res:
                res.out('rejected')
            if ok:
                return 'hle1%r is valid, but it raises %s: %s' % (
                    tuple(a), type(e).__name__, e)
            return None
        if not ok:
            return 'hle1%r is invalid, but it gives %r' % (tuple(a), out)
        if res:
            res.out('accepted')
        if float(out[3]) == 0 and not all(
                math.isfinite(float(x)) for x in out[:3]):
            return 'hle1%r gives %r' % (tuple(a), out)
        return None

    def r_call(self, case):
        m = self.call(case)
        return [m] if m else []

    # ------------------------------------------------------- precipitation
    def t_precip(self, res, t):
        for m, p, r, tp in itertools.product(
                (0., .01, 5., 80.), (0., .01, .5, 1.),
                (-100., -1e-9, 0., 1e-3, 50., 400.), (-9., -.01, 0., 4.)):
            case = dict(kind='precip', w=dict(model.weather(), m_pp=m,
                                              percent_snow=p, rho_snow=r,
                                              t_pp=tp + F))
            x = self.precip(case)
            res.count('transitions')
            res.count('paths')
            res.states.add(explore.digest((m, p, r, tp)))
            if x:
                res.bad(case, x)

    def precip(self, case):
        from pysnobal.point import InputData
        w = dict(case['w'])
        bad = w['m_pp'] * w['percent_snow'] > 0 and w['rho_snow'] <= 0
        try:
            InputData(w)
        except Exception as e:
            if w != case['w']:
                return 'the rejected record was changed to %r' % w
            if bad:
                return None
            return 'valid record %r: %s: %s' % (w, type(e).__name__, e)
        if w != case['w']:
            return 'the record %r was changed to %r' % (case['w'], w)
        if bad:
            return 'snowfall without density is accepted: %r' % w
        return None

    def r_precip(self, case):
        m = self.precip(case)
        return [m] if m else []

    # ----------------------------------------------------------- the model
    def t_heights(self, res, t):
        for z, zu, zt, rel, z0 in itertools.product(
                (.2, .9, 2., 3.), (5., 2., 3., .9, 1e-3),
                (5., 2., 3., .9, 1e-3), (False, True), (.005, .0005, .02)):
            if z0 * 10 > 1e-3 and min(zu, zt) <= 10 * z0 and rel and \
                    min(zu, zt) > z0:
                continue
            self.model_case(res, dict(
                kind='model', cfg=model.cfg(z_u=zu, z_t=zt,
                                            relative_heights=rel),
                init=model.pack(z, 300., F - 4, F - 2, 0., z0),
                weather=[model.weather(u=2.)] * 2))

    def t_air(self, res, t):
        base = model.weather(u=2., t_a=-4.)
        for k, vs in dict(t_a=(0., -1., 250.), e_a=(0., -1., -300., 1e-3,
                                                    900., 2e4),
                          t_g=(262., 280.)).items():
            for v in vs:
                for init in (model.pack(.5, 300., F - 4), dict(model.BARE)):
                    for i in (0, 1):
                        ws = [dict(base), dict(base)]
                        if i == 0:
                            ws[0][k] = v
                        else:
                            ws = [dict(base, **{k: v})] * 2
                        self.model_case(res, dict(
                            kind='model', cfg=space.CONFIGS[0], init=init,
                            weather=ws))

    def model_case(self, res, case):
        m = self.judge_model(case, res)
        res.count('transitions')
        res.count('paths')
        res.states.add(explore.digest(sorted(case.items())))
        if m:
            res.bad(case, m)

    def judge_model(self, case, res=None):
        from pysnobal.point import Snobal
        c, init, ws = case['cfg'], case['init'], case['weather']
        snow = init['z_s'] * init['rho'] > c['small_threshold']
        h = min(c['z_u'], c['z_t'])
        if not c['relative_heights']:
            h -= init['z_s']
        ok = True
        if snow:
            if h <= init['z_0']:
                ok = False
            elif h < .3:
                return None
            if ws[0]['t_a'] <= 0 or ws[0]['e_a'] <= 0:
                ok = False
        elif ws[0]['t_a'] <= 0:
            return None                    # nobody looks at it
        args = (model.params(c), model.tstep_info(c), dict(init),
                model.heights(c))
        before = copy.deepcopy(args)
        ws2 = [dict(w) for w in ws]
        err = None
        try:
            sn = Snobal(*args + ('all',))
            sn.do_data_tstep(model.record(ws2[0]), model.record(ws2[1]))
        except Exception as e:
            err = e
        if args != before or ws2 != ws:
            return 'the model changed what it was given'
        if res:
            res.out('accepted' if err is None else 'rejected')
        if ok and err is not None and 'converge' not in str(err):
            return 'valid simulation, but it raises %s: %s' % (
                type(err).__name__, err)
        if not ok and err is None:
            return 'invalid simulation (height %r above the snow, %r) runs' \
                % (h, dict((k, ws[0][k]) for k in ('t_a', 'e_a')))
        return None

    def r_model(self, case):
        m = self.judge_model(case)
        return [m] if m else []

    # ------------------------------------------------------- whole program
    def tables(self, tier):
        for i, t in enumerate(itertools.product(*self.STEPS)):
            if tier == 'quick' and i % 4 and not self.even(t):
                continue
            yield t

    @staticmethod
    def even(t):
        return all(b > 0 and a % b == 0 for a, b in zip(t, t[1:]))

    def t_tables(self, res, t):
        for i, tab in enumerate(self.tables(t['tier'])):
            if i % t['of'] != t['part']:
                continue
            c = model.cfg(data_time_step=tab[0], norm_time_step=tab[1],
                          medium_time_step=tab[2], small_time_step=tab[3])
            self.program(res, dict(
                kind='program', ok=self.even(tab), what='step table %s' % (
                    tab,), case=base_case(cfg=c, weather=[
                        dict(w, u=2.) for w in whole.short_history(3)])))

    def configs(self):
        out = []
        for o in ('topo.elevation', 'time.start_date', 'time.end_date',
                  'files.input_csv', 'topo.*', 'time.*', 'files.*'):
            out.append(('without ' + o, dict(omit=[o]), False))
        for k, v in (('topo.elevation', 'high'), ('files.output_mode', 'some'),
                     ('time.time_zone', 'Nowhere/Land'),
                     ('files.input_csv', '/nonexistent/in.csv'),
                     ('time.start_date', 'yesterday-ish'),
                     ('time.end_date', 'never'),
                     ('model.max_active', 'thin'), ('model.max_h2o', 'wet'),
                     ('files.format_output', 'perhaps'),
                     ('model.norm_time_step', '7.5'),
                     ('model.small_time_step', 'short'),
                     ('initial_snow_properties.z_s', 'deep'),
                     ('measurement_heights.z_u', 'high'),
                     ('measurement_heights.relative_heights', 'sometimes')):
            out.append(('%s = %s' % (k, v), dict(set={k: v}), False))
        for k, v in (('topo.elevation', '0'), ('files.output_mode', 'all'),
                     ('files.output_mode', 'normal'),
                     ('time.time_zone', 'America/Boise'),
                     ('files.format_output', 'False'),
                     ('model.max_active', '0.4'),
                     ('measurement_heights.relative_heights', 'True')):
            out.append(('%s = %s' % (k, v), dict(set={k: v}), True))
        for n in OBJECTS:
            out.append(('object ' + n, dict(object=n), False))
        return out

    def t_configs(self, res, t):
        for i, (what, ch, ok) in enumerate(self.configs()):
            if i % t['of'] == t['part']:
                self.program(res, dict(kind='program', ok=ok, what=what,
                                       case=base_case(mode='all', **dict(
                                           (k, v) for k, v in ch.items()
                                           if k != 'object')),
                                       object=ch.get('object')))

    def program(self, res, case):
        m = self.judge_program(case)
        res.count('transitions')
        res.count('paths')
        res.count('whole program runs')
        res.states.add(explore.digest(case['what']))
        res.out('accepted' if case['ok'] else 'rejected')
        if m:
            res.bad(case, m)

    def judge_program(self, case):
        from pysnobal.pysnobal import PySnobal
        with driver.Scratch() as d:
            ini = driver.prepare(case['case'], d)
            kept = [content(os.path.join(d, n)) for n in ('in.csv', 'c.ini')]
            out = os.path.join(d, 'out.csv')
            arg = OBJECTS[case['object']](d) if case.get('object') else ini
            err = None
            try:
                PySnobal(arg).run()
            except Exception as e:
                err = e
            except SystemExit as e:
                err = e
            wrote = os.path.exists(out)
            if kept != [content(os.path.join(d, n))
                        for n in ('in.csv', 'c.ini')]:
                return '%s: the input files were changed' % case['what']
        if case['ok']:
            if err is not None and 'converge' not in str(err):
                return '%s is valid, but the program stops with %s: %s' % (
                    case['what'], type(err).__name__, err)
            if err is None and not wrote:
                return '%s: no output' % case['what']
            return None
        if wrote:
            return '%s is not usable, but there is output' % case['what']
        if err is None:
            return '%s is not usable, but no error is raised' % case['what']
        return None

    def r_program(self, case):
        m = self.judge_program(case)
        return [m] if m else []


OBJECTS = {
    'None': lambda d: None, 'number': lambda d: 5, 'dict': lambda d: {},
    'list': lambda d: [os.path.join(d, 'c.ini')],
    'bytes': lambda d: os.path.join(d, 'c.ini').encode(),
    'missing file': lambda d: os.path.join(d, 'nothere.ini'),
    'empty name': lambda d: '', 'directory': lambda d: d,
    'config sections': lambda d: dict(topo=dict(elevation=1000.)),
}


def content(p):
    with open(p) as f:
        return f.read()


# ---------------------------------------------------------------------- C28
class Start(Check):
    id = 'C28'
    technique = 'enumeration of the initial snowpack lattice (depth, density, ' \
        'temperatures, saturation, roughness) x layer and mass limits: state ' \
        'before the first step and the first run steps against the ' \
        'documented start, on the model and through configuration files'
    assumptions = ['initial snowpacks of the lattice in checks/validity.py']
    Z = [0., .002, .003334, .0034, .05, .24, .25, .2501, .2533, .2534, .26,
         .5, 1.7]
    R = [0., 60., 300., 550., 650.]
    T = [(F, F), (F - .5, F - 3), (F - 12, F - 4), (F - 30, F - 30),
         (F - 4, F)]
    S = [0., .3, 1.]
    LIM = [(.25, 1, .01), (.1, 5, .05), (.5, 30, .01)]
    Z0 = [.005, .0001, .02]
    Z0_FILES = [.005, .0001, .02, .05, .0005]

    def bounds(self, tier):
        return {'initial state': '%d depths x %d densities x %d temperatures '
                'x %d saturations x %d limits, with and without a lower-layer '
                'temperature' % (len(self.Z), len(self.R), len(self.T),
                                 len(self.S), len(self.LIM)),
                'first steps': 'two data steps from every one of them, %d '
                'roughness lengths' % len(self.Z0),
                'whole program': '%d configuration files' % len(
                    list(self.files(tier)))}

    def inits(self):
        for z, r, (a, b), s in itertools.product(self.Z, self.R, self.T,
                                                 self.S):
            yield dict(z_s=z, rho=r, t_s_0=a, t_s=b, h2o_sat=s)

    def vt(self, tier):
        return [dict(campaign='states', lim=i, part=p, of=4,
                     thin=1)
                for i in range(len(self.LIM)) for p in range(4)]

    def cfg(self, i):
        a, s, w = self.LIM[i]
        return model.cfg(max_active=a, small_threshold=s, max_h2o=w)

    def t_states(self, res, t):
        c = self.cfg(t['lim'])
        r = explore.Runner(whole.step_oracle)
        ws = [model.weather(**dict(space.NEAR, m_pp=2., ps=.5, t_pp=.5, u=2.)),
              model.weather(**dict(space.COLD, u=3.)),
              model.weather(**dict(space.HOT, u=2.))]
        for n, i in enumerate(self.inits()):
            if n % t['of'] != t['part']:
                continue
            for z0 in self.Z0:
                for low in (None, F - 2., F):
                    i2 = dict(i, z_0=z0)
                    if low is not None:
                        i2['t_s_l'] = low
                    case = dict(kind='start', cfg=c, init=i2)
                    m = self.judge(case)
                    res.count('transitions')
                    res.states.add(explore.digest(sorted(i2.items())))
                    if m:
                        res.bad(case, m)
                        return
                    res.count('paths')
            # the first steps, one roughness and weather in turn
            m0 = i['z_s'] * i['rho']
            if (n // t['of']) % t['thin'] or (
                    c['small_threshold'] < m0 < 3):
                continue
            k = n // t['of'] // t['thin']
            i2 = dict(i, z_0=self.Z0[k % 3])
            w = [ws[k % 3], ws[(k + 1) % 3]]
            r.chain(res, dict(kind='model', cfg=c, init=i2, weather=w))
            if len(res.violations) > 2:
                return

    def judge(self, case):
        c, init = case['cfg'], case['init']
        C = model.constants(c, init)
        given = dict(init)
        try:
            from pysnobal.point import Snobal
            args = (model.params(c), model.tstep_info(c), given,
                    model.heights(c))
            sn = Snobal(*args + ('all',))
        except Exception as e:
            return 'cannot start from %r: %s: %s' % (
                init, type(e).__name__, e)
        if given != init:
            return 'the initial snow properties %r were changed to %r' % (
                init, given)
        if not hasattr(sn, 'snow_state'):
            return None
        st = model.state(sn)
        want = model.ref_initial(init, C)
        for k in ref.STATE + ('cc_s',):
            if k not in want or k not in st:
                continue
            a, b = st[k], float(want[k])
            if want['layer_count'] == 0 and k in ('h2o_max',):
                continue
            if not abs(a - b) <= 1e-9 + 1e-9 * abs(b):
                return 'start from %r: %s is %r, not %r' % (init, k, a, b)
        z0 = getattr(sn.snow_state, 'z_0', init['z_0'])
        if z0 != init['z_0']:
            return 'roughness %r instead of %r' % (z0, init['z_0'])
        return None

    def r_start(self, case):
        m = self.judge(case)
        return [m] if m else []

    def r_model(self, case):
        return explore.Runner(whole.step_oracle).evaluate(case)

    # ---------------------------------------------------- configuration files
    def files(self, tier):
        for n, i in enumerate(self.inits()):
            m = i['z_s'] * i['rho']
            lim = n % len(self.LIM)
            if self.LIM[lim][1] < m < 3:
                continue
            if n % (19 if tier == 'quick' else 3):
                continue
            yield dict(kind='whole', cfg=self.cfg(lim),
                       init=dict(i, z_0=self.Z0_FILES[n % 5]), mode='all',
                       weather=[dict(w, u=2.) for w in whole.short_history(
                           3, n)])
        yield base_case(init=dict(INIT), mode='all')

    def pp(self, tier):
        return [dict(campaign='files', part=i, of=6, tier=tier)
                for i in range(6)]

    def t_files(self, res, t):
        for n, case in enumerate(self.files(t['tier'])):
            if n % t['of'] != t['part']:
                continue
            m = whole.judge(case, res)
            res.count('paths')
            res.count('whole program runs')
            if m:
                res.bad(case, m)
                if len(res.violations) > 2:
                    return

    def r_whole(self, case):
        m = whole.judge(case, None)
        return [m] if m else []


CHECKS = [Validity(), Start()]
