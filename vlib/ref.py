"""Reference model of one Snobal run step, written from the published model
(Marks et al.; Anderson 1976; Snobal's two-layer scheme) and from this
repository's documentation, in plain Python floats.

It is deliberately boring: one function per physical process, no caching, no
objects, no history.  The state is a plain dict holding exactly the fields that
the model writes into an output record.  The checks compare the real code with
it one run step at a time, always starting from the state the *real code*
reported at the end of the previous step, so nothing accumulates.
"""
import math

FREEZE = 273.16
BOIL = 373.15
SEA_LEVEL = 1.013246e5
RGAS = 8.31432e3
GRAV = 9.80665
MAIR = 28.9644
MH2O = 18.0153
KARMAN = 0.41
RHO_W = 999.87
RHO_I = 917.0
CAL = 4.186798188
MINT = FREEZE - 75.0
EPS_SNOW = 0.98
SIGMA = 5.67032e-8
VAP_SUB = 2.501 / 2.835
CP_AIR = 1005.0
LN10 = math.log(10.0)

ENERGY = ('R_n', 'H', 'L_v_E', 'G', 'G_0', 'M', 'delta_Q', 'delta_Q_0')
STATE = ('rho', 't_s_0', 't_s_l', 't_s', 'cc_s_0', 'cc_s_l', 'm_s', 'm_s_0',
         'm_s_l', 'z_s', 'z_s_0', 'z_s_l', 'h2o_sat', 'layer_count', 'h2o',
         'h2o_max', 'h2o_vol')


# ------------------------------------------------------------ thermodynamics
def satw(t):
    b = BOIL / t
    return 10.0 ** (-7.90298 * (b - 1.0) + 5.02808 * math.log(b) / LN10
                    - 1.3816e-7 * (10.0 ** (11.344 * (1.0 - t / BOIL)) - 1.0)
                    + 8.1328e-3 * (10.0 ** (-3.49149 * (b - 1.0)) - 1.0)
                    + math.log(SEA_LEVEL) / LN10)


def sati(t):
    if t > FREEZE:
        return satw(t)
    r = FREEZE / t
    return 100.0 * 10.0 ** (-9.09718 * (r - 1.0) - 3.56654 * math.log(r) / LN10
                            + 0.876793 * (1.0 - 1.0 / r)
                            + math.log(6.1071) / LN10)


def lh_vap(t):
    return 2.5e6 - 2955.73 * (t - FREEZE)


def lh_fus(t):
    return 3.336e5 + 166.67 * (FREEZE - t)


LF = lh_fus(FREEZE)


def lh_turb(ts):
    """latent heat of the turbulent vapour flux at surface temperature ts"""
    return lh_vap(ts) + (lh_fus(ts) if ts <= FREEZE else 0.0)


def cp_ice(t):
    return CAL * (0.024928 + 0.00176 * t) / 0.001


def cp_water(t):
    return 4217.7 - 2.55 * (t - FREEZE)


def spec_hum(e, p):
    return e * MH2O / (MAIR * p + e * (MH2O - MAIR))


def diffusion(p, t):
    return 0.65e-4 * (SEA_LEVEL / p) * (t / FREEZE) ** 14.0


def air_pressure(elev, lapse=-6.5):
    """pressure (Pa) in the standard atmosphere at elev metres"""
    h = elev / 1000.0
    t0 = 288.0
    return SEA_LEVEL * (t0 / (t0 + lapse * h)) ** (
        GRAV * MAIR / (RGAS * lapse * 1e-3))


def efcon(k, t, p):
    if t > FREEZE:
        lh = lh_vap(t)
    elif t == FREEZE:
        lh = lh_vap(t) + lh_fus(t) / 2.0
    else:
        lh = lh_vap(t) + lh_fus(t)
    e = sati(t)
    return k + lh * diffusion(p, t) * (MH2O / MAIR) * e / (p - e)


def conduct(k1, k2, t1, t2, d1, d2):
    """steady state heat flow from layer 2 into layer 1"""
    return 2.0 * k1 * k2 * (t2 - t1) / (k2 * d1 + k1 * d2)


def psi_m(z):
    if z > 0:
        return -5.2 * min(z, 1.0)
    if z < 0:
        x = (1.0 - 16.0 * z) ** 0.25
        return 2 * math.log((1 + x) / 2) + math.log((1 + x * x) / 2) \
            - 2 * math.atan(x) + math.pi / 2
    return 0.0


def psi_h(z):
    if z > 0:
        return -5.2 * min(z, 1.0)
    if z < 0:
        x = (1.0 - 16.0 * z) ** 0.25
        return 2 * math.log((1 + x * x) / 2)
    return 0.0


class Turb(object):
    """The Monin-Obukhov system for one set of inputs."""

    def __init__(self, p, ta, ts, za, ea, es, zq, u, zu, z0):
        ea = min(ea, satw(ta))
        d0 = 2.0 * 7.35 * z0 / 3.0
        self.u = u
        self.lm = math.log((zu - d0) / z0)
        self.lh = math.log((za - d0) / z0)
        self.lv = math.log((zq - d0) / z0)
        self.za, self.zq, self.zu = za, zq, zu
        self.dq = spec_hum(ea, p) - spec_hum(es, p)
        self.tpot = ta + GRAV / CP_AIR * za
        self.dt = self.tpot - ts
        tm, em = math.sqrt(self.tpot * ts), math.sqrt(ea * es)
        tv = tm / (1.0 - (1.0 - MH2O / MAIR) * (em / p))
        self.rho = p * MAIR / (RGAS * tv)
        self.xlh = lh_turb(ts)
        self.neutral = self.tpot == ts or u == 0.0

    def obukhov(self, us, h, e):
        den = KARMAN * GRAV * (h / (self.tpot * CP_AIR) + 0.61 * e)
        num = us ** 3 * self.rho
        if den == 0:
            return math.inf
        return num / den

    def fluxes(self, lo):
        """ustar, h, e for a given Obukhov length"""
        us = KARMAN * self.u / (self.lm - psi_m(self.zu / lo))
        f = KARMAN * us * self.rho
        return (us, self.dt * f * CP_AIR / (self.lh - psi_h(self.za / lo)),
                self.dq * f / (self.lv - psi_h(self.zq / lo)))

    def solve(self):
        """cold start fixed point iteration; None when it does not settle"""
        us = KARMAN * self.u / self.lm
        f = KARMAN * us * self.rho
        e = self.dq * f / self.lv
        h = self.dt * f * CP_AIR / self.lh
        if self.neutral:
            return h, e * self.xlh, e
        last = math.inf
        for _ in range(400):
            lo = self.obukhov(us, h, e)
            if lo == 0 or math.isnan(lo):
                return None
            us, h, e = self.fluxes(lo)
            if abs(lo - last) <= 1e-9 * abs(lo):
                self.lo = lo
                return h, e * self.xlh, e
            last = lo
        return None

    def settled(self, h, le):
        """the fluxes belong to an Obukhov length near the solution that one
        more round of the iteration moves by less than a few of the model's
        convergence thresholds (1e-5 m)"""
        if self.neutral:
            return False
        if getattr(self, 'lo', 0) != 0 and self._near(h, le, [
                self.lo * 4.0 ** (k / 120.0 - 1.0) for k in range(241)]):
            return True
        # next to no wind: lengths near or below the threshold itself
        return any(self._near(h, le, [
            sign * 0.1 * 10.0 ** (-k / 60.0) for k in range(571)])
            for sign in (1, -1))

    def _near(self, h, le, los):
        e = le / self.xlh
        i, v = (1, h) if abs(self.dt) > 1e-9 else (2, e)

        def off(lo):
            return self.fluxes(lo)[i] - v
        prev = None
        for lo in los:
            try:
                x = off(lo)
            except (ZeroDivisionError, OverflowError):
                prev = None
                continue
            if prev is not None and (prev[1] <= 0) != (x <= 0):
                m = self.root(off, prev[0], lo, prev[1] <= 0)
                us, h1, e1 = self.fluxes(m)
                if abs(h1 - h) <= 1e-7 * (1 + abs(h)) and \
                        abs(e1 - e) * self.xlh <= 1e-7 * (1 + abs(le)) and \
                        abs(self.obukhov(us, h1, e1) - m) <= 3e-5:
                    return True
            prev = lo, x
        return False

    def root(self, f, a, b, neg):
        """bisection; neg: f(a) <= 0"""
        m = a
        for _ in range(80):
            c = 0.5 * (a + b)
            try:
                x = f(c)
            except (ZeroDivisionError, OverflowError):
                break       # a pole, not a root
            m = c
            if (x <= 0) == neg:
                a = c
            else:
                b = c
        return m

    def residual(self, h, le):
        """How far (h, le) is from solving the system: the smallest relative
        mismatch over all Obukhov lengths consistent with h and le."""
        e = le / self.xlh
        if self.neutral:
            us = KARMAN * self.u / self.lm
            f = KARMAN * us * self.rho
            h1, e1 = self.dt * f * CP_AIR / self.lh, self.dq * f / self.lv
            return max(abs(h - h1) / (abs(h1) + 1e-6),
                       abs(e - e1) / (abs(e1) + 1e-12))
        b = h / (self.tpot * CP_AIR) + 0.61 * e
        if b == 0:
            return math.inf

        def g(us):
            lo = us ** 3 * self.rho / (KARMAN * GRAV * b)
            if lo == 0:
                return math.inf, lo
            den = self.lm - psi_m(self.zu / lo)
            if den == 0:
                return math.inf, lo
            return KARMAN * self.u / den - us, lo
        best = math.inf
        # scan ustar for roots of g
        hi = KARMAN * self.u / self.lm * 20 + 1e-9
        n = 600
        prev = None
        for i in range(n + 1):
            us = hi * 10.0 ** (-5.0 * (n - i) / n)
            v, lo = g(us)
            if prev is not None and (prev[1] <= 0) != (v <= 0):
                a, fa, c = prev[0], prev[1], us
                for _ in range(100):
                    m = 0.5 * (a + c)
                    fm, lm = g(m)
                    if (fm <= 0) == (fa <= 0):
                        a, fa = m, fm
                    else:
                        c = m
                try:
                    _, h1, e1 = self.fluxes(lm)
                except (ZeroDivisionError, OverflowError):
                    continue
                r = max(abs(h - h1) / (abs(h1) + 1e-6),
                        abs(e - e1) / (abs(e1) + 1e-12))
                best = min(best, r)
            prev = (us, v)
        return best


# ------------------------------------------------------------- energy balance
def kts(rho):
    return CAL * 0.0077 * (rho / 1000.0) ** 2


def net_radiation(t0, S_n, I_lw):
    return S_n + EPS_SNOW * (I_lw - SIGMA * t0 ** 4)


def conduction(s, f, C):
    """(G, G_0)"""
    p = C['P_a']
    kg = efcon(1.65, f['t_g'], p)
    if s['layer_count'] == 1:
        t = min(s['t_s_0'], FREEZE)
        g = conduct(efcon(kts(s['rho']), t, p), kg, t, f['t_g'],
                    s['z_s_0'], C['z_g'])
        return g, g
    t = min(s['t_s_l'], FREEZE)
    g = conduct(efcon(kts(s['rho']), t, p), kg, t, f['t_g'],
                s['z_s_l'], C['z_g'])
    k = kts(s['rho'])
    if s['t_s_0'] == s['t_s_l']:
        return g, 0.0
    g0 = conduct(efcon(k, s['t_s_0'], p), efcon(k, s['t_s_l'], p),
                 s['t_s_0'], s['t_s_l'], s['z_s_0'], s['z_s_l'])
    return g, g0


def turb(s, f, C):
    z = 0.0 if C['relative_heights'] else s['z_s']
    ea = min(f['e_a'], sati(f['t_a']))
    return Turb(C['P_a'], f['t_a'], s['t_s_0'], C['z_t'] - z, ea,
                sati(s['t_s_0']), C['z_t'] - z, f['u'], C['z_u'] - z, C['z_0'])


def advection(s, f, dt):
    if not f['precip_now']:
        return 0.0
    return (cp_water(f['t_rain']) * f['m_rain'] * (f['t_rain'] - s['t_s_0'])
            + cp_ice(f['t_snow']) * f['m_snow'] * (f['t_snow'] - s['t_s_0'])
            ) / dt


# --------------------------------------------------------------- snow geometry
def layers(z, m, rho, C):
    """(z_s, z_s_0, z_s_l) for a pack"""
    if m <= C['small_threshold'] or z <= 0:
        return 0.0, 0.0, 0.0
    lower = z - C['max_z_s_0']
    if lower <= 0 or lower * rho < C['small_threshold']:
        return z, z, 0.0
    return z, C['max_z_s_0'], lower


def cold(t, m):
    return cp_ice(t) * m * (t - FREEZE) if t < FREEZE else 0.0


def bare(s):
    for k in ('rho', 'm_s', 'm_s_0', 'm_s_l', 'cc_s_0', 'cc_s_l', 'z_s',
              'z_s_0', 'z_s_l', 'h2o', 'h2o_max', 'h2o_vol', 'h2o_sat'):
        s[k] = 0.0
    s['t_s'] = s['t_s_0'] = s['t_s_l'] = MINT
    s['layer_count'] = 0


def retention(z, rho, vol):
    """mass of water held by z metres of snow at volume ratio vol"""
    return vol * z * RHO_W * (RHO_I - rho) / RHO_I


def new_pack(s, C):
    """layers, masses, cold content and water of a pack described by z_s, rho,
    temperatures and h2o_sat; returns the water of a pack too small to keep"""
    m = s['rho'] * s['z_s']
    s['m_s'] = m
    z, z0, zl = layers(s['z_s'], m, s['rho'], C)
    if z == 0:
        bare(s)
        return max(m, 0.0)
    s['z_s'], s['z_s_0'], s['z_s_l'] = z, z0, zl
    s['layer_count'] = 2 if zl > 0 else 1
    s['m_s_0'], s['m_s_l'] = s['rho'] * z0, s['rho'] * zl
    s['cc_s_0'] = cold(s['t_s_0'], s['m_s_0'])
    if zl > 0:
        s['cc_s_l'] = cold(s['t_s_l'], s['m_s_l'])
    else:
        s['t_s_l'], s['cc_s_l'] = MINT, 0.0
    s['h2o_vol'] = s['h2o_sat'] * C['max_h2o_vol']
    dry = (s['rho'] - s['h2o_vol'] * RHO_W) / (
        1.0 - s['h2o_vol'] * RHO_W / RHO_I)
    s['h2o_max'] = retention(s['z_s'], dry, C['max_h2o_vol'])
    s['h2o'] = s['h2o_sat'] * s['h2o_max']
    return 0.0


def relayer(w, C):
    """depth or mass changed: split into layers again"""
    s = w['s']
    prev = s['layer_count']
    z, z0, zl = layers(s['z_s'], s['m_s'], s['rho'], C)
    if z == 0:
        w['h2o_total'] = max(s['m_s'], 0.0)
        bare(s)
        w['cover'] = False
        w['vanished'] = True
        return
    s['z_s'], s['z_s_0'], s['z_s_l'] = z, z0, zl
    s['layer_count'] = 2 if zl > 0 else 1
    s['m_s_0'], s['m_s_l'] = s['rho'] * z0, s['rho'] * zl
    if prev == 1 and zl > 0:
        s['t_s_l'] = s['t_s']
        s['cc_s_l'] = cold(s['t_s_l'], s['m_s_l'])
    elif prev == 2 and zl == 0:
        s['t_s_l'], s['cc_s_l'] = MINT, 0.0


def adjust(w, dz, dm, C):
    s = w['s']
    s['z_s'] += dz
    s['m_s'] += dm
    s['rho'] = s['m_s'] / s['z_s'] if s['z_s'] != 0 else 0.0
    if s['rho'] > 600.0:
        s['rho'] = 600.0
        s['z_s'] = s['m_s'] / 600.0
        relayer(w, C)
    elif dz != 0:
        relayer(w, C)
    else:
        s['m_s_0'], s['m_s_l'] = s['rho'] * s['z_s_0'], s['rho'] * s['z_s_l']


# ---------------------------------------------------------------- mass balance
def compaction(w, dt, C):
    s = w['s']
    if not w['cover'] or s['rho'] >= 550.0:
        return
    if s['m_s'] >= 2000.0:
        rate = 1.0
    else:
        rate = 23.5 * math.cos(math.pi * s['m_s'] / 2000.0) + 24.5
    rate /= dt / 3600.0
    dtz = FREEZE - s['t_s']
    k = 1.0 if s['rho'] < 100 else math.exp(-0.046 * (s['rho'] - 100))
    d = 0.01 * k * math.exp(-0.04 * dtz) \
        + 0.026 * math.exp(-0.08 * dtz) * s['m_s'] * math.exp(
            -21.0 * s['rho'] / RHO_W)
    s['rho'] *= 1.0 + d / rate
    s['z_s'] = s['m_s'] / s['rho']
    relayer(w, C)


def precipitation(w, f, C):
    s = w['s']
    if not f['precip_now']:
        w['h2o_total'] += s['h2o']
        return
    if w['cover']:
        adjust(w, f['z_snow'], f['m_pp'], C)
        if not w['cover']:
            return
        s['h2o'] += retention(f['z_snow'], f['rho_snow'],
                              f['h2o_sat_snow'] * C['max_h2o_vol'])
    elif f['m_snow'] > 0:
        s['z_s'], s['rho'] = f['z_snow'], f['rho_snow']
        s['t_s'] = s['t_s_0'] = s['t_s_l'] = f['t_snow']
        s['h2o_sat'] = f['h2o_sat_snow']
        w['h2o_total'] += new_pack(s, C)
        w['created'] = s['layer_count'] > 0
    w['h2o_total'] += s['h2o'] + f['m_rain']


def phase_change(w, fl, dt, C):
    """melt and refreezing from the step's energy; cold content update"""
    s = w['s']
    w['melt'] = 0.0
    w['refrozen'] = 0.0
    if not w['cover']:
        return
    q0 = fl['delta_Q_0'] * dt + s['cc_s_0']
    if q0 > 0:
        w['melt'] += q0 / LF
    s['cc_s_0'] = min(q0, 0.0)
    ql = 0.0
    if s['layer_count'] == 2:
        ql = (fl['G'] - fl['G_0']) * dt + s['cc_s_l']
        if ql > 0:
            w['melt'] += ql / LF
        s['cc_s_l'] = min(ql, 0.0)
    w['h2o_total'] += w['melt']
    w['q'] = (q0, ql)
    ref = 0.0
    for q, zk, ck in ((q0, 'z_s_0', 'cc_s_0'), (ql, 'z_s_l', 'cc_s_l')):
        if zk == 'z_s_l' and s['layer_count'] != 2:
            continue
        if s[ck] < 0 and w['h2o_total'] > 0:
            have = w['h2o_total'] * s[zk] / s['z_s']
            left = q + have * LF
            if left <= 0:
                ref += have
                s[ck] = left
            else:
                ref += have - left / LF
                s[ck] = 0.0
    w['refrozen'] = ref
    if abs(w['h2o_total'] - ref) <= 1e-8:
        w['h2o_total'] = 0.0
    else:
        w['h2o_total'] -= ref
    if w['melt'] > 0:
        adjust(w, -w['melt'] / s['rho'], 0.0, C)


def vapor_exchange(w, E, f, dt, C):
    s = w['s']
    w['E_s'] = 0.0
    if not w['cover']:
        return
    air = E * dt
    before = w['h2o_total']
    if w['h2o_total'] > 0:
        w['h2o_total'] = max(w['h2o_total'] + air * VAP_SUB, 0.0)
    ts = s['t_s_l'] if s['layer_count'] == 2 else s['t_s_0']
    tbar = (f['t_g'] + ts) / 2.0
    p = C['P_a']
    dens = p * MAIR / (RGAS * tbar)
    dq = spec_hum(sati(f['t_g']), p) - spec_hum(sati(ts), p)
    soil = dens * diffusion(p, tbar) * dq / C['z_g'] * dt
    if w['h2o_total'] > 0:
        w['h2o_total'] = max(w['h2o_total'] + soil * VAP_SUB, 0.0)
    w['E_s'] = max(air + soil, -s['m_s'])
    dz = (w['E_s'] + before - w['h2o_total']) / s['rho'] / 2.0
    adjust(w, dz, w['E_s'], C)


def wet_compaction(w, f, C):
    s = w['s']
    if not w['cover'] or s['rho'] > 550.0:
        return
    add = (w['melt'] + (f['m_rain'] if f['precip_now'] else 0.0)) / s['m_s']
    if add > 1e-6:
        s['rho'] += (550.0 - s['rho']) / (1.0 + 0.4 / add)
        s['z_s'] = s['m_s'] / s['rho']
        relayer(w, C)


def runoff(w, C):
    s = w['s']
    if not w['cover'] or s['layer_count'] == 0:
        w['swi'] = w['h2o_total']
        return
    if s['m_s'] - w['h2o_total'] <= 0:
        # nothing but water
        s['z_s'] = 0.0
        relayer(w, C)
        w['swi'] = w['h2o_total']
        return
    dry = (s['m_s'] - w['h2o_total']) / s['z_s']
    s['h2o_max'] = retention(s['z_s'], dry, C['max_h2o_vol'])
    if w['h2o_total'] > s['h2o_max']:
        w['swi'] = w['h2o_total'] - s['h2o_max']
        s['h2o'] = s['h2o_max']
        s['h2o_sat'] = 1.0
        s['h2o_vol'] = C['max_h2o_vol']
        adjust(w, 0.0, -w['swi'], C)
    else:
        w['swi'] = 0.0
        s['h2o'] = w['h2o_total']
        s['h2o_sat'] = s['h2o'] / s['h2o_max'] if s['h2o_max'] > 0 else 0.0
        s['h2o_vol'] = s['h2o_sat'] * C['max_h2o_vol']


def tsno(m, t, cc):
    return cc / (m * cp_ice(t)) + FREEZE


def temperatures(w):
    s = w['s']
    if not w['cover']:
        return
    if s['layer_count'] == 1:
        s['t_s_0'] = tsno(s['m_s_0'], s['t_s_0'], s['cc_s_0'])
        s['t_s'] = s['t_s_0']
    elif s['layer_count'] == 2:
        cc = s['cc_s_0'] + s['cc_s_l']
        if cc == 0:
            s['t_s'] = s['t_s_0'] = s['t_s_l'] = FREEZE
        else:
            s['t_s_0'] = tsno(s['m_s_0'], s['t_s_0'], s['cc_s_0'])
            s['t_s_l'] = tsno(s['m_s_l'], s['t_s_l'], s['cc_s_l'])
            s['t_s'] = tsno(s['m_s'], s['t_s'], cc)


def mass_step(pre, fl, E, f, dt, C):
    """state after one run step, given the step's energy fluxes fl (dict with
    delta_Q_0, G, G_0) and vapor flux E (kg/m2/s)"""
    w = {'s': dict((k, pre[k]) for k in STATE),
         'cover': pre['layer_count'] > 0, 'h2o_total': 0.0,
         'vanished': False, 'created': False, 'E_s': 0.0, 'melt': 0.0}
    compaction(w, dt, C)
    precipitation(w, f, C)
    phase_change(w, fl, dt, C)
    vapor_exchange(w, E, f, dt, C)
    wet_compaction(w, f, C)
    runoff(w, C)
    temperatures(w)
    return w


# -------------------------------------------------------------------- forcing
def precip(w):
    """partition of one weather record's precipitation (whole data step)"""
    mp = w['m_pp']
    out = dict(precip_now=mp > 0, m_pp=mp, m_snow=0.0, m_rain=0.0, z_snow=0.0,
               rho_snow=w['rho_snow'], t_snow=0.0, t_rain=0.0,
               h2o_sat_snow=0.0)
    if mp <= 0:
        out['m_pp'] = 0.0
        return out
    ms = mp * w['percent_snow']
    mr = mp - ms
    tp = w['t_pp']
    out['m_snow'], out['m_rain'] = ms, mr
    if ms > 0:
        out['z_snow'] = ms / w['rho_snow']
    if mr > 0:
        out['t_rain'] = max(tp, FREEZE)
    if ms > 0:
        if mr > 0 or tp >= FREEZE:
            out['t_snow'], out['h2o_sat_snow'] = FREEZE, 1.0
        else:
            out['t_snow'] = tp
    return out


def forcing(w1, w2, frac, share):
    """forcing of a run step starting at fraction frac of the data step and
    covering fraction share of it"""
    f = dict((k, w1[k] + (w2[k] - w1[k]) * frac)
             for k in ('S_n', 'I_lw', 't_a', 'e_a', 'u', 't_g'))
    p = precip(w1)
    for k in ('m_pp', 'm_snow', 'm_rain', 'z_snow'):
        p[k] *= share
    f.update(p)
    return f
