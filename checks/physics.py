"""Checks whose oracle looks at one run step at a time."""
from vlib import model, oracles as o, ref, twin
from vlib.base import Physics
from . import formulas

ASSUME = [
    'weather within the value tables of vlib/space.py; step tables that divide '
    'evenly; thresholds above zero',
    'a flux iteration that reports non-convergence ends a history (C13 judges '
    'those separately)']

F = ref.FREEZE


class Ties(twin.Extra):
    """snowpacks whose layer masses and depths meet the limits exactly: powers
    of two, with which every way to compute them is exact"""

    def bounds(self, tier):
        b = twin.Extra.bounds(self, tier)
        b['exact limits'] = '%d snowpacks, initial and fallen on bare ground,' \
            ' with depths in sixteenths and masses in powers of two' % len(
                list(self.packs()))
        return b

    def vt(self, tier):
        return twin.Extra.vt(self, tier) + [dict(campaign='ties')]

    def packs(self):
        for mx in (.125, .25, .5):
            for thr in (1, 8, 16, 32, 64):
                for rho in (64., 128., 256., 512.):
                    for n in range(1, 17):
                        yield mx, thr, rho, n / 16.

    def judge(self, mx, thr, rho, z, falls):
        c = model.cfg(max_active=mx, small_threshold=thr,
                      medium_threshold=thr, norm_threshold=thr)
        low = z - mx
        if rho * z <= thr:
            want = (0., 0.)
        elif low > 0 and low * rho >= thr:
            want = (mx, low)
        else:
            want = (z, 0.)
        if falls:
            sn = model.make(c, model.BARE)
            w = model.weather(t_a=-5., m_pp=rho * z, ps=1., rho_snow=rho)
            r = model.step(sn, model.record(w), model.record(w))[-1]
        else:
            sn = model.make(c, dict(z_s=z, rho=rho, t_s_0=F - 5, t_s=F - 5,
                                    h2o_sat=0., z_0=.005))
            r = model.state(sn)
        got = r['z_s_0'], r['z_s_l']
        masses = r['m_s'], r['m_s_0'], r['m_s_l']
        if got != want or masses != (rho * sum(want), rho * want[0],
                                     rho * want[1]):
            return '%s snowpack of %r m, %r kg/m3 with an active layer of ' \
                '%r m and a minimum of %r kg/m2: layers of %r m, masses %r, ' \
                'should be %r m' % ('fallen' if falls else 'initial', z, rho,
                                    mx, thr, got, masses, want)
        return None

    def t_ties(self, res, t):
        for x in self.packs():
            for falls in (False, True):
                m = self.judge(*x + (falls,))
                res.count('transitions')
                res.count('paths')
                res.states.add(hash(x + (falls,)))
                if m:
                    res.bad(dict(kind='tie', pack=x + (falls,)), m)
                    return

    def r_tie(self, case):
        m = self.judge(*case['pack'])
        return [m] if m else []


CHECKS = [
    Physics('C01', o.mass, assumptions=ASSUME, extra=twin.Extra(twin.mass)),
    Physics('C02', o.energy, assumptions=ASSUME,
            extra=twin.Extra(twin.energy)),
    Physics('C03', o.both(o.phase_direct, o.phase), assumptions=ASSUME),
    Physics('C04', o.bounds, assumptions=ASSUME,
            extra=twin.Extra(twin.bounds)),
    Physics('C05', o.both(o.layers, o.layer_ref), assumptions=ASSUME,
            extra=Ties(twin.layers)),
    Physics('C12', o.net_radiation, assumptions=ASSUME),
    Physics('C14', o.conduction, assumptions=ASSUME,
            extra=formulas.Conduction()),
    Physics('C15', o.advection, assumptions=ASSUME),
    Physics('C16', o.both(o.vapor_direct, o.vapor), assumptions=ASSUME),
    Physics('C17', o.both(o.density_direct, o.density), assumptions=ASSUME),
    Physics('C18', o.both(o.liquid_direct, o.liquid), assumptions=ASSUME),
]
