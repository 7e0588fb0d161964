"""C06 vanished snowcover, C07 division, C08 forcing, C11 precipitation, C13
turbulent fluxes."""
import itertools
import math

from vlib import driver, explore, model, oracles as o, ref, space, whole
from vlib.base import Check, Physics
from checks.physics import ASSUME

F = ref.FREEZE


# ---------------------------------------------------------------------- C06
ENERGY = [k + '_bar' for k in ref.ENERGY]


def differ(a, b, exact):
    for k in b:
        if k == 'date_time' or k not in a:
            continue
        x, y = a[k], b[k]
        if exact:
            ok = abs(x - y) <= 1e-9 + 1e-9 * max(abs(x), abs(y))
        else:
            tol = .5 if k in ENERGY else 200. if k[:2] == 'cc' else 5e-3
            ok = abs(x - y) <= tol + 2e-2 * max(abs(x), abs(y))
        if not ok:
            return k
    return None


class Vanish(object):
    """continuations after the snowcover is gone against a fresh model"""
    CFG = (0, 6, 9, 3, 13, 25)

    def plan(self, tier):
        """[(configurations, data steps before, length of continuation, only
        continuations with snowfall)]"""
        if tier == 'quick':
            return [(self.CFG[:3], 2, 2, True)]
        return [(self.CFG, 2, 2, False), (self.CFG, 1, 3, False)]

    def bounds(self, tier):
        return {'after the snow is gone': [
            'every weather word of length %d%s after every history of up to '
            '%d data steps that ends without snow, %d configurations x %d '
            'snowpacks, against a model that starts there on bare ground' % (
                n, ' with snowfall' if f else '', d, len(c),
                len(self.states())) for c, d, n, f in self.plan(tier)]}

    def states(self):
        k = space.key_states()
        return [k[0], k[1], k[2], k[11],
                model.pack(.03, 120, F - 3, None, 0),
                model.pack(.3, 51, F - .2, F - .2, 1),
                model.pack(.009, 100, F, None, 1),      # 0.9 kg: a trace
                model.pack(.3, 20, F, F, 1)]

    def vt(self, tier):
        return [dict(campaign='cont', cfg=c, state=s, d=d, n=n, snow=f)
                for cs, d, n, f in self.plan(tier)
                for c in cs for s in range(len(self.states()))]

    def pp(self, tier):
        return []

    def t_cont(self, res, t):
        c = space.CONFIGS[t['cfg']]
        init = self.states()[t['state']]
        al = space.ALPHA
        done = set()
        for word in itertools.product(range(len(al)), repeat=t['d'] + 1):
            for k, sn in self.vanishing(c, init, word):
                if word[:k + 2] in done:
                    continue
                done.add(word[:k + 2])
                res.count('vanished')
                for cont in itertools.product(range(len(al)), repeat=t['n']):
                    if t['snow'] and not (2 in cont or 4 in cont):
                        continue
                    case = dict(kind='cont', cfg=c, init=init,
                                word=list(word[:k + 2]), cont=list(cont))
                    m = self.follow(c, sn, word[k + 1], cont, res)
                    if m:
                        res.bad(case, m)
                        return

    def vanishing(self, c, init, word):
        """(data step, copy of the model) whenever there is no snow after a
        data step"""
        al = space.ALPHA
        sn = model.make(c, init)
        cur = model.record(al[word[0]])
        for k in range(len(word) - 1):
            nxt = model.record(al[word[k + 1]])
            try:
                recs = model.step(sn, cur, nxt)
            except Exception:
                return
            cur = nxt
            if recs and recs[-1]['m_s'] == 0:
                yield k, sn

    def follow(self, c, sn, last, cont, res):
        from pysnobal.point import Snobal
        al = space.ALPHA
        a, = model.fork(sn)
        p = dict(model.params(c), start_date=a.current_datetime)
        b = Snobal(p, model.tstep_info(c), dict(model.BARE), model.heights(c),
                   'all')
        # the flux iteration may start from the last result (C13 judges what
        # that does); give both the same start and nothing else may differ
        exact = hasattr(a, '_hle1_init') and hasattr(b, '_hle1_init')
        if exact:
            b._hle1_init = dict(a._hle1_init)
        ca, cb = model.record(al[last]), model.record(al[last])
        for w in cont:
            na, nb = model.record(al[w]), model.record(al[w])
            out = []
            for m, x, y in ((a, ca, na), (b, cb, nb)):
                try:
                    out.append(model.step(m, x, y))
                except Exception as e:
                    out.append(e)
            ra, rb = out
            if isinstance(ra, Exception) or isinstance(rb, Exception):
                if res:
                    res.out('flux iteration did not converge')
                if isinstance(ra, Exception) != isinstance(rb, Exception) \
                        and 'converge' not in str(ra) + str(rb):
                    return 'after the snow is gone: %s; on bare ground: %s' \
                        % (ra if isinstance(ra, Exception) else 'runs',
                           rb if isinstance(rb, Exception) else 'runs')
                return None
            for i, (x, y) in enumerate(zip(ra, rb)):
                if res:
                    res.count('transitions')
                    res.states.add(hash((round(y['m_s'], 6),
                                         round(y['t_s_0'], 5))))
                if x['date_time'] != y['date_time']:
                    pre = rb[i - 1] if i else None
                    ms = [] if pre is None else [
                        pre[k] for k in ('m_s', 'm_s_0', 'm_s_l')]
                    th = [c[k + '_threshold'] for k in ('norm', 'medium',
                                                        'small')]
                    if any(abs(m - t) < 1e-2 for m in ms for t in th):
                        return None
                    return 'run step ends at %s after the snow is gone, at ' \
                        '%s on ground that was always bare' % (
                            x['date_time'], y['date_time'])
                k = differ(x, y, exact)
                if k:
                    if any(abs(r['m_s'] - c[q + '_threshold']) < 1e-2
                           for r in (x, y)
                           for q in ('norm', 'medium', 'small')):
                        return None
                    return 'snowfall after the snow is gone: %s = %r at %s, ' \
                        'but %r on ground that was always bare' % (
                            k, x[k], x['date_time'], y[k])
            if len(ra) != len(rb):
                return 'different run steps after the snow is gone'
            ca, cb = na, nb
        if res:
            res.count('paths')
        return None

    def r_cont(self, case):
        c = case['cfg']
        word = case['word']
        for k, sn in self.vanishing(c, case['init'], word):
            if k == len(word) - 2:
                m = self.follow(c, sn, word[-1], case['cont'], None)
                return [m] if m else []
        return []


# ---------------------------------------------------------------------- C07
class Division(object):
    """snowpacks around every threshold x step tables"""
    TABLES = [(60, 60, 15, 1), (60, 60, 60, 60), (60, 30, 15, 5),
              (60, 20, 10, 5), (180, 60, 30, 10), (180, 180, 60, 20),
              (60, 60, 12, 4), (30, 30, 10, 2), (120, 40, 20, 10),
              (360, 120, 60, 15)]
    # through the program only
    FINE = [(180, 180, 180, 2), (180, 180, 90, 1), (180, 180, 2, 1),
            (720, 360, 4, 2), (1440, 720, 360, 4)]
    THR = [(60, 10, 1), (100, 50, 20), (200, 200, 1), (20, 80, 1), (40, 10, 5),
           (61, 60, 59), (0, 0, 1)]

    def bounds(self, tier):
        return {'division': '%d step tables x %d threshold triples x %d '
                'snowpacks around the thresholds x %d weather pairs' % (
                    len(self.TABLES), len(self.THR), len(self.packs(0)),
                    self.pairs(tier)),
                'division through the program': '%d cases' % len(
                    list(self.cases(tier)))}

    def pairs(self, tier):
        return 2 if tier == 'quick' else len(space.WEATHER_PAIRS)

    def packs(self, i):
        """one- and two-layer packs just below, at and above the thresholds"""
        a, b, s = self.THR[i]
        out = [dict(model.BARE)]
        for m in sorted(set((a, b, s))):
            for d in (-.75, -1. / 64, 0., 1. / 64, .75, 6.):
                x = m + d
                if x <= max(s, 1):
                    continue
                # one layer of exactly x kg (rho = 256, z = x / 256), also
                # above a lower layer and below a surface layer
                if x / 256. <= .25:
                    out.append(model.pack(x / 256., 256., F - 4, F - 4))
                if x < 150:
                    out.append(model.pack(.25 + x / 256., 256., F - 4, F - 3))
                if 50 <= x * 4 <= 500:
                    out.append(model.pack(.75, x * 4., F - 5, F - 3))
        return out

    def vt(self, tier):
        return [dict(campaign='division', table=i, thr=j,
                     pairs=self.pairs(tier))
                for i in range(len(self.TABLES))
                for j in range(len(self.THR))]

    def cfg(self, i, j):
        t, h = (self.TABLES + self.FINE)[i], self.THR[j]
        return model.cfg(data_time_step=t[0], norm_time_step=t[1],
                         medium_time_step=t[2], small_time_step=t[3],
                         norm_threshold=h[0], medium_threshold=h[1],
                         small_threshold=h[2])

    def t_division(self, res, t):
        c = self.cfg(t['table'], t['thr'])
        r = explore.Runner(None, o.division)
        for init in self.packs(t['thr']):
            # light packs in long steps are outside the scheme's range
            m = init['z_s'] * init['rho']
            longest = c['norm_time_step'] if m >= c['norm_threshold'] else \
                c['medium_time_step'] if m >= c['medium_threshold'] else \
                c['small_time_step']
            if m and longest > 15 and m < 15:
                continue
            for ws in space.WEATHER_PAIRS[:7:3][:t['pairs']] \
                    if t['pairs'] < 7 else space.WEATHER_PAIRS:
                mild = [dict(w, u=2.) for w in ws]
                r.chain(res, dict(kind='model', cfg=c, init=init,
                                  weather=mild + mild[:1]))

    def cases(self, tier):
        for i in range(len(self.TABLES + self.FINE)):
            for j in range(3 if tier == 'quick' else len(self.THR)):
                c = self.cfg(i, j)
                for init in (dict(z_s=.4, rho=300., t_s_0=F - 3, t_s=F - 3,
                                  h2o_sat=0., z_0=.005),
                             dict(z_s=.2, rho=256., t_s_0=F - 2, t_s=F - 2,
                                  h2o_sat=0., z_0=.005)):
                    yield dict(kind='whole', cfg=c, init=init,
                               weather=[dict(w, u=2.) for w in
                                        whole.short_history(5, i)])

    def pp(self, tier):
        return [dict(campaign='divcases', tier=tier, part=i, of=6)
                for i in range(6)]

    def t_divcases(self, res, t):
        for i, case in enumerate(self.cases(t['tier'])):
            if i % t['of'] == t['part']:
                m = whole.judge(case, res, oracle=None)
                res.count('paths')
                res.count('whole program runs')
                if m:
                    res.bad(case, m)

    def r_whole(self, case):
        m = whole.judge(case, None, oracle=None)
        return [m] if m else []


# ---------------------------------------------------------------------- C08
def forcing(s):
    """what a run step with snow saw, and the precipitation it got"""
    m = o.forcing(s) or o.turbulent(s)
    if m:
        return m
    return precip_mass(s)


def precip_mass(s):
    """the precipitation of the run step from its mass balance"""
    m = o.mass(s)
    if m and not isinstance(m, tuple):
        return m
    if s.f['m_snow'] > 0:
        return depth_after(s)
    return None


depth_after = o.against_ref(('z_s', 'rho', 'm_s', 'water'))


def precip_total(c, steps):
    """the run steps of a data step receive exactly the record's precipitation
    (as far as the mass balance shows it)"""
    got = 0.0
    sc = 1.0
    for s in steps:
        r = s.rec
        got += r['m_s'] - s.pre['m_s'] - r['E_s_sum'] + r['swi_sum']
        sc += abs(r['m_s']) + abs(r['swi_sum'])
        k = o.mass(s)
        if isinstance(k, tuple):
            got -= r['h2o']
    want = steps[0].w1['m_pp'] if steps else 0.0
    if abs(got - max(want, 0.0)) > 1e-7 * sc:
        return 'a data step with %r kg/m2 of precipitation received %r' % (
            want, got)
    return None


class Interpolation(object):
    """the interpolation itself, on every sequence of step lengths: the sum of
    the increments of any division reaches the second record"""

    def bounds(self, tier):
        return {'ramps': 'each forcing alone ramping up or down between two '
                'records, %d step tables, 5 snowpacks' % len(Division.TABLES)}

    VALS = dict(S_n=(0., 700.), I_lw=(200., 380.), t_a=(F - 12, F + 6),
                e_a=(200., 590.), u=(1., 9.), t_g=(F - 4, F + 5))

    def vt(self, tier):
        return [dict(campaign='ramp', table=i) for i in range(
            len(Division.TABLES))]

    def pp(self, tier):
        return []

    def t_ramp(self, res, t):
        T = Division.TABLES[t['table']]
        r = explore.Runner(forcing, precip_total)
        base = model.weather(S_n=150, I_lw=270, t_a=-3, rh=.8, u=3, t_g=-.5)
        for thr in ((60, 10, 1), (200, 100, 1), (300, 300, 5)):
            c = model.cfg(data_time_step=T[0], norm_time_step=T[1],
                          medium_time_step=T[2], small_time_step=T[3],
                          norm_threshold=thr[0], medium_threshold=thr[1],
                          small_threshold=thr[2])
            for init in (model.pack(.2, 256, F - 4), model.pack(
                    .6, 300, F - 6, F - 2), model.pack(.5, 350, F, F, 1),
                    model.pack(.25, 480, F - 1, None, .5), model.BARE):
                for k in self.VALS:
                    for a, b in (self.VALS[k], self.VALS[k][::-1]):
                        for p in (space.NONE, space.PRECIPS[3],
                                  space.PRECIPS[1], space.PRECIPS[4]):
                            pr = model.weather(**p)
                            w1 = dict(base, **dict((q, pr[q]) for q in (
                                'm_pp', 'percent_snow', 'rho_snow', 't_pp')))
                            w1[k] = a
                            w2 = dict(base)
                            w2[k] = b
                            r.chain(res, dict(kind='model', cfg=c, init=init,
                                              weather=[w1, w2, w1]))


# ---------------------------------------------------------------------- C11
class Precip(object):
    """the product grid of precipitation properties"""
    MPP = [0., .02, .8, 5., 40.]
    PS = [0., .01, .35, .5, .99, .9998, 1.]
    RHO = [50., 100., 250., 500.]
    TPP = [-20., -5., -.02, 0., .02, .5, 3., 12.]

    # the records alone, without a simulation
    DENSE = ([0., 1e-7, 1e-4, .003, .02, .3, .8, 2.5, 5., 17., 40., 120.],
             [0., 1e-9, 1e-6, 1e-4, .002, .01, .1, .35, .5, .72, .9, .99,
              .9985, 1 - 1e-4, 1 - 1e-6, 1 - 1e-9, 1.],
             [1., 20., 50., 100., 180., 250., 500., 900.],
             [-60., -20., -5., -1.7, -.3, -.02, -1e-6, 0., 1e-6, .02, .5, .9,
              1.3, 3., 12., 30.])

    def bounds(self, tier):
        return {'records': '%d x %d x %d x %d' % tuple(map(len, self.DENSE)),
                'precipitation': '%d masses x %d fractions x %d densities x '
                '%d temperatures x %d snowpacks x 3 configurations' % (
                    len(self.MPP), len(self.PS), len(self.RHO), len(self.TPP),
                    len(self.states()))}

    def states(self):
        k = space.key_states()
        return [k[0], k[2], k[3], k[5], k[6], k[8], k[10]]

    def vt(self, tier):
        return [dict(campaign='precip', state=s, cfg=c)
                for s in range(len(self.states())) for c in (0, 3, 16)] + [
                    dict(campaign='records')]

    def pp(self, tier):
        return []

    def t_records(self, res, t):
        calm = model.weather(S_n=100, I_lw=280, t_a=-1, u=2., rh=.8, t_g=-.2)
        for x in itertools.product(*self.DENSE):
            w = dict(calm, m_pp=x[0], percent_snow=x[1], rho_snow=x[2],
                     t_pp=x[3] + F)
            res.count('transitions')
            m = self.direct(w)
            if m:
                res.bad(dict(kind='precip', w=w), m)
                return

    def t_precip(self, res, t):
        c = space.CONFIGS[t['cfg']]
        init = self.states()[t['state']]
        r = explore.Runner(o.precip_event)
        calm = model.weather(S_n=100, I_lw=280, t_a=-1, u=2., rh=.8, t_g=-.2)
        for mp, ps, rho, tp in itertools.product(self.MPP, self.PS, self.RHO,
                                                 self.TPP):
            w = dict(calm, m_pp=mp, percent_snow=ps, rho_snow=rho, t_pp=tp + F)
            case = dict(kind='model', cfg=c, init=init, weather=[w, calm])
            m = self.direct(w)
            if m:
                res.bad(dict(kind='precip', w=w), m)
                return
            r.chain(res, case)
            if len(res.violations) > 2:
                return

    def direct(self, w):
        """the derived properties of an input record"""
        x = model.record(w)
        want = ref.precip(w)
        pairs = [('m_snow', 'm_snow'), ('m_rain', 'm_rain')]
        if want['m_pp'] > 0:
            pairs.append(('z_snow', 'z_snow'))
        if want['m_snow'] > 0:
            pairs += [('t_snow', 't_snow'), ('h2o_sat_snow', 'h2o_sat_snow')]
        if want['m_rain'] > 0:
            pairs.append(('t_rain', 't_rain'))
        for a, b in pairs:
            if not hasattr(x, a):
                continue
            v = getattr(x, a)
            if abs(v - want[b]) > 1e-12 + 1e-10 * abs(want[b]):
                return 'precipitation %r: %s is %r, should be %r' % (
                    dict((k, w[k]) for k in ('m_pp', 'percent_snow',
                                             'rho_snow', 't_pp')),
                    a, v, want[b])
        return None

    def r_precip(self, case):
        m = self.direct(case['w'])
        return [m] if m else []


def precip_step(s):
    return o.precip_event(s)


def no_precip(s):
    """records without precipitation add nothing: mass and rain terms"""
    m = o.mass(s)
    if m and not isinstance(m, tuple):
        return m
    return o.advection(s)


# ---------------------------------------------------------------------- C13
class Fluxes(object):
    """hle1 itself, from every starting value"""
    TA = [F - 40, F - 12, F - .5, F, F + .5, F + 8, F + 25]
    TS = [F - 45, F - 15, F - .5, F - .001, F]
    U = [0., .02, .3, 1., 4., 15., 40.]
    RH = [.05, .5, .95, 1.]
    Z = [(5., 5.), (2., 10.), (10., 1.5), (.5, .5)]
    Z0 = [.0005, .005, .05]
    P = [101324.6, 79000., 55000.]
    STARTS = [(None, None), (.5, .2), (.01, .003), (3., 1.5), (.1, None),
              (1e-4, 1e-4)]

    def bounds(self, tier):
        return {'flux routine': '%d air temperatures x %d surface '
                'temperatures x %d winds x %d humidities x %d heights x %d '
                'roughnesses x %d pressures%s, from %d starting values' % (
                    len(self.TA), len(self.TS), len(self.U), len(self.RH),
                    len(self.Z), len(self.Z0), len(self.P),
                    '' if tier == 'thorough' else ' (every 3. point)',
                    len(self.STARTS)),
                'air above saturation': 'up to 24.9 Pa over water, same '
                'fluxes as saturated air',
                'slow convergence': 'of %d inputs those that take the plain '
                'iteration %d rounds or more' % (
                    len(self.SLOW_TA) * len(self.SLOW_TS) * len(self.SLOW_U) *
                    len(self.SLOW_RH) * len(self.SLOW_Z) * len(self.Z0), 20)}

    SLOW_TA = [F - 30, F - 20, F - 10, F - 5, F - 2, F - 1, F - .5, F - .1, F,
               F + .1, F + .5, F + 1, F + 2, F + 3, F + 5, F + 8, F + 12,
               F + 20]
    SLOW_TS = [F - 35, F - 25, F - 15, F - 10, F - 6, F - 3, F - 1, F - .3, F]
    SLOW_U = [.05, .1, .2, .5, 1., 1.5, 2., 3., 4., 6., 8., 12., 20.]
    SLOW_RH = [.1, .3, .5, .7, .9, 1.]
    SLOW_Z = [(5., 5.), (2., 10.), (3., 2.), (10., 3.), (1., 1.)]

    def vt(self, tier):
        return [dict(campaign='hle1', u=i, z0=j, thin=1 if tier == 'thorough'
                     else 3)
                for i in range(len(self.U)) for j in range(len(self.Z0))] + \
            [dict(campaign='slow', u=i) for i in range(len(self.SLOW_U))] + \
            [dict(campaign='moist', p=p) for p in self.P]

    def t_slow(self, res, t):
        from pysnobal.point import libsnobal
        if not hasattr(libsnobal, 'hle1'):
            res.out('no flux routine of that name')
            return
        u = self.SLOW_U[t['u']]
        for ta, ts, rh, z, z0 in itertools.product(
                self.SLOW_TA, self.SLOW_TS, self.SLOW_RH, self.SLOW_Z,
                self.Z0):
            if min(z) < 9 * z0:
                continue
            a = [79000., ta, ts, z[0], rh * ref.sati(ta), ref.sati(ts), z[0],
                 u, z[1], z0]
            res.count('transitions')
            try:
                n = iterations(ref.Turb(*a))
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            if n is not None and n < 20:
                continue
            self.tell(res, dict(kind='hle1', args=a, slow=True))
            if len(res.violations) > 2:
                return

    def t_moist(self, res, t):
        from pysnobal.point import libsnobal
        if not hasattr(libsnobal, 'hle1'):
            res.out('no flux routine of that name')
            return
        for ta, ts, u, z, x in itertools.product(
                self.TA, self.TS, self.U[1:], self.Z, (
                    -3., -.01, 0., .01, .5, 4.9, 12., 20., 24.9)):
            self.tell(res, dict(kind='hle1', args=[
                t['p'], ta, ts, z[0], ref.satw(ta) + x if x > -1 else
                .5 * (ref.satw(ta) + ref.sati(ta)),
                ref.sati(ts), z[0], u, z[1], .005]))
            if len(res.violations) > 2:
                return

    def tell(self, res, case):
        m = self.judge(case, res)
        res.count('paths')
        res.count('transitions')
        res.states.add(hash(tuple(case['args'])))
        if m and len(res.violations) < 3:
            res.bad(case, m)

    def pp(self, tier):
        return []

    def t_hle1(self, res, t):
        from pysnobal.point import libsnobal
        if not hasattr(libsnobal, 'hle1'):
            res.out('no flux routine of that name')
            return
        n = 0
        u, z0 = self.U[t['u']], self.Z0[t['z0']]
        for ta, ts, rh, z, p in itertools.product(self.TA, self.TS, self.RH,
                                                  self.Z, self.P):
            if z[0] < 9 * z0 or z[1] < 9 * z0:
                continue
            n += 1
            if n % t['thin']:
                continue
            case = dict(kind='hle1', args=[p, ta, ts, z[0], rh * ref.sati(ta),
                                           ref.sati(ts), z[0], u, z[1], z0])
            m = self.judge(case, res)
            res.count('transitions')
            res.count('paths')
            res.states.add(hash(tuple(case['args'])))
            if m:
                res.bad(case, m)
                if len(res.violations) > 2:
                    return
        # neutral: the potential temperature equals the surface temperature
        dalr = ref.GRAV / ref.CP_AIR
        for ts in self.TS:
            for z in (5., 2.):
                for p in self.P:
                    ta = ts - dalr * z
                    case = dict(kind='hle1', args=[
                        p, ta, ts, z, .7 * ref.sati(ta), ref.sati(ts), z, u,
                        z, z0])
                    m = self.judge(case, res)
                    res.count('transitions')
                    if m:
                        res.bad(case, m)

    def judge(self, case, res=None):
        from pysnobal.point import libsnobal
        a = list(case['args'])
        T = ref.Turb(*a)
        x = T.solve()
        iters = iterations(T)
        for us, fac in self.STARTS[:1 if case.get('slow') else None]:
            try:
                out = libsnobal.hle1(*a, init_ustar=us, init_factor=fac)
            except TypeError as e:
                if 'argument' in str(e):
                    if res:
                        res.out('starting values cannot be given')
                    return None
                raise
            except Exception as e:
                return 'valid input %r: %s: %s' % (a, type(e).__name__, e)
            h, le, e, status = [float(v) for v in out[:4]]
            if status != 0:
                if res:
                    res.out('no convergence reported')
                if us is None and iters is not None and iters <= 20:
                    return '%r: no convergence, but the iteration settles ' \
                        'after %d rounds' % (a, iters)
                continue
            if not (math.isfinite(h) and math.isfinite(le)):
                return '%r: H %r, L_v_E %r' % (a, h, le)
            if abs(le - e * T.xlh) > 1e-6 * abs(le) + 1e-12:
                return '%r: L_v_E %r with mass flux %r' % (a, le, e)

            def far(p, q):
                return not abs(p - q) <= 1e-4 + (
                    3e-4 if case.get('slow') else 1e-3) * max(abs(p), abs(q))
            if x is not None and not far(h, x[0]) and not far(le, x[1]):
                if res:
                    res.out('solution agrees')
                continue
            r = T.residual(h, le)
            if not r < 1e-4:
                # (the roots of a double root come and go with the last digits)
                for x1, x2 in NEAR:
                    r = min(r, T.residual(h * (1 + x1), le * (1 + x2)))
                    if r < 1e-4:
                        break
            if case.get('slow') and not T.settled(h, le) and not r < (
                    1e-4 if x else 3e-3):
                return '%r: H = %r, L_v_E = %r are reported although the ' \
                    'iteration has not settled (mismatch %.3g, solution ' \
                    '%r)' % (a, h, le, r, x and x[:2])
            if not r < 5e-3:
                # degenerate: all fluxes vanish
                if abs(h) < 1e-3 and abs(le) < 1e-3:
                    continue
                return '%r from %r: H = %r, L_v_E = %r do not solve the ' \
                    'equations (mismatch %.3g, solution %r)' % (
                        a, (us, fac), h, le, r, x and x[:2])
            if res:
                res.out('another solution')
        return None

    def r_hle1(self, case):
        m = self.judge(case)
        return [m] if m else []


NEAR = [(d * i, d * j) for d in (1e-11, 1e-8, 1e-6) for i, j in (
    (1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, -1), (1, -1), (-1, 1))]


def iterations(T):
    """rounds that the plain fixed point iteration takes, None for never"""
    if T.neutral:
        return 0
    us = ref.KARMAN * T.u / T.lm
    f = ref.KARMAN * us * T.rho
    e, h = T.dq * f / T.lv, T.dt * f * ref.CP_AIR / T.lh
    last = math.inf
    for i in range(60):
        lo = T.obukhov(us, h, e)
        if lo == 0 or math.isnan(lo):
            return None
        us, h, e = T.fluxes(lo)
        if abs(lo - last) < 1e-5 and abs(lo - last) < 1e-5 * abs(lo):
            return i
        last = lo
    return None


def noconv(info, msg):
    """the model gave up: only when the iteration really does not settle"""
    pre, f, C = info
    try:
        T = ref.turb(pre, f, C)
        n = iterations(T)
    except (ValueError, ZeroDivisionError, OverflowError):
        return None
    if n is not None and n <= 8:
        return 'the flux iteration settles after %d rounds, but the run ' \
            'stops with %s' % (n, msg.splitlines()[0])
    return None


CHECKS = [
    Physics('C06', o.bare, assumptions=ASSUME + [
        'the fresh model gets the same starting value for the flux iteration '
        '(C13 judges the starting value)'], extra=Vanish(),
        thin=dict(grid=2, dev_thin=2)),
    Physics('C07', None, o.division, assumptions=ASSUME, extra=Division()),
    Physics('C08', forcing, precip_total, assumptions=ASSUME,
            thin=dict(grid=2, dev_thin=2, script=True),
            extra=Interpolation()),
    Physics('C11', o.precip_event, assumptions=ASSUME, extra=Precip()),
    Physics('C13', o.turbulent, None, noconv, assumptions=ASSUME,
            thin=dict(grid=1), extra=Fluxes()),
]
_ = (Check, driver)
