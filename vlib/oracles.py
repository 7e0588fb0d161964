"""Per-run-step oracles.  Each takes a model.Step and returns None or a message.

Comparisons use a small tolerance, and before anything is called a mismatch the
reference is re-evaluated with inputs moved by 1e-9: a difference that
disappears there is a tie at a branch point (a layer mass equal to a threshold,
a soil temperature equal to freezing up to rounding), not a difference in
behaviour.
"""
import math

from . import ref

FREEZE = ref.FREEZE

ABS = dict(rho=1e-6, t_s_0=2e-5, t_s_l=2e-5, t_s=2e-5, cc_s_0=2e-2,
           cc_s_l=2e-2, cc_s=2e-2, m_s=1e-7, m_s_0=1e-7, m_s_l=1e-7, z_s=1e-9,
           z_s_0=1e-9, z_s_l=1e-9, h2o_sat=1e-6, layer_count=0.5, h2o=5e-8,
           h2o_max=1e-8, h2o_vol=1e-8, E_s_sum=1e-10, melt_sum=1e-8,
           swi_sum=5e-8, water=5e-8, R_n=1e-7, G=1e-7, G_0=1e-7, M=1e-7)
REL = 1e-8


def off(k, a, b, rel=REL):
    """does a differ from b (nan counts as different)"""
    return not abs(a - b) <= ABS[k] + rel * max(abs(a), abs(b))


def loc(s):
    return 'data step %d, %g s into it, run step %g s' % (s.k, s.el, s.dt)


def say(s, what):
    return '%s: %s' % (loc(s), what)


# -------------------------------------------------- comparison with reference
def _values(w):
    d = dict(w['s'])
    d['cc_s'] = d['cc_s_0'] + d['cc_s_l']
    d['E_s_sum'], d['melt_sum'], d['swi_sum'] = w['E_s'], w['melt'], w['swi']
    d['water'] = d['h2o'] + d['swi_sum']
    return d


def _bad(rec, w, fields):
    v = _values(w)
    for k in fields:
        if k == 'water':
            got = rec['h2o'] + rec['swi_sum']
        elif k in rec:
            got = rec[k]
        else:
            continue
        if off(k, got, v[k]):
            return k, got, v[k]
    return None


_EPS = 1e-9


def _variants(s):
    pre, f, fl, E = s.pre, s.f, s.fluxes(), s.E()
    for sg in (1, -1):
        for k in ('m_s', 'rho', 'z_s', 'h2o', 'cc_s_0', 'cc_s_l', 't_s'):
            p = dict(pre)
            p[k] = p[k] * (1 + sg * _EPS)
            if k == 'rho':
                p['z_s'] = p['z_s'] * (1 - sg * _EPS)
            yield p, fl, E, f
        for k in ('t_g', 'm_pp', 'm_rain', 'z_snow'):
            g = dict(f)
            g[k] = g[k] * (1 + sg * _EPS)
            yield pre, fl, E, g
        # saturation jumps at freezing
        yield pre, fl, E, dict(f, t_g=f['t_g'] + sg * _EPS)
        for k in ('delta_Q_0', 'G', 'G_0'):
            g = dict(fl)
            g[k] = g[k] + sg * (_EPS * abs(g[k]) + 1e-9)
            yield pre, g, E, f
        yield pre, fl, E * (1 + sg * _EPS) + sg * 1e-15, f


def against_ref(fields):
    def check(s):
        try:
            b = _bad(s.rec, s.ref(), fields)
        except (ZeroDivisionError, ValueError, OverflowError):
            return None if _all_ok(s, fields) else say(
                s, 'reference undefined but the record is not either')
        if b is None:
            return None
        for p, fl, E, f in _variants(s):
            try:
                w = ref.mass_step(p, fl, E, f, s.dt, s.C)
            except (ZeroDivisionError, ValueError, OverflowError):
                continue
            if _bad(s.rec, w, fields) is None:
                return None
        return say(s, '%s is %r, should be %r' % b)
    return check


def _all_ok(s, fields):
    return all(math.isfinite(s.rec[k]) for k in fields if k in s.rec)


def both(*fs):
    def check(s):
        for f in fs:
            m = f(s)
            if m:
                return m
        return None
    return check


# ----------------------------------------------------------------- properties
def mass(s):
    """C01; returns ('K2', msg) for the listed finding"""
    r, f = s.rec, s.f
    res = (r['m_s'] - s.pre['m_s']) - (
        f['m_pp'] + r['E_s_sum'] - r['swi_sum'])
    tol = 3e-8 + 1e-10 * (abs(r['m_s']) + f['m_pp'])
    if abs(res) <= tol:
        if not s.snow and r['m_s'] == 0 and off('swi_sum', r['swi_sum'],
                                                f['m_pp']):
            return say(s, 'bare ground: swi %r, precipitation %r' % (
                r['swi_sum'], f['m_pp']))
        return None
    # (a leftover below the threshold becomes water before the snow falls)
    bare = not s.snow or s.pre['m_s'] <= s.C['small_threshold']
    if bare and r['m_s'] > 0 and f['m_snow'] > 0 and \
            f['h2o_sat_snow'] == 1 and abs(res - r['h2o']) <= tol:
        return 'K2', 'warm or mixed snow on bare ground: the new ' \
            'snowpack\'s liquid water (%.6g kg/m2) is also counted in swi' % res
    return say(s, 'mass changed by %r, but precip + E_s - swi = %r' % (
        r['m_s'] - s.pre['m_s'], f['m_pp'] + r['E_s_sum'] - r['swi_sum']))


def energy_closure(r, what=''):
    def bad(a, b, sc):
        return not abs(a - b) <= 1e-6 + 1e-10 * sc
    sc = sum(abs(r[k + '_bar']) for k in ref.ENERGY)
    q0 = r['R_n_bar'] + r['H_bar'] + r['L_v_E_bar'] + r['G_0_bar'] + r['M_bar']
    if bad(r['delta_Q_0_bar'], q0, sc):
        return 'delta_Q_0 %r is not the sum of its terms %r' % (
            r['delta_Q_0_bar'], q0)
    q = r['delta_Q_0_bar'] + r['G_bar'] - r['G_0_bar']
    if bad(r['delta_Q_bar'], q, sc):
        return 'delta_Q %r is not delta_Q_0 + G - G_0 = %r' % (
            r['delta_Q_bar'], q)
    return None


def energy(s):
    m = energy_closure(s.rec)
    if m:
        return say(s, m)
    if not s.snow:
        for k in ref.ENERGY:
            if s.rec[k + '_bar'] != 0:
                return say(s, 'no snow, but %s = %r' % (k, s.rec[k + '_bar']))
    elif s.pre['layer_count'] == 1 and off('G', s.rec['G_bar'],
                                           s.rec['G_0_bar']):
        return say(s, 'one layer, but G %r and G_0 %r' % (
            s.rec['G_bar'], s.rec['G_0_bar']))
    return None


phase = against_ref(('melt_sum', 'cc_s_0', 'cc_s_l', 't_s_0', 't_s_l', 't_s',
                     'water'))


def phase_direct(s):
    """energy bookkeeping without the reference: what the layers gained in
    cold content plus melt minus refreezing accounts for delta_Q"""
    r = s.rec
    if not s.snow:
        if r['melt_sum'] != 0:
            return say(s, 'melt %r without snow' % r['melt_sum'])
        return None
    for t, c, m in (('t_s_0', 'cc_s_0', 'm_s_0'), ('t_s_l', 'cc_s_l',
                                                   'm_s_l')):
        if r[m] > 0 and r['layer_count' if 'layer_count' in r else m] > 0:
            # a layer that formed in this step started at another temperature
            bases = (s.pre[t], r[t], s.pre['t_s'])
            if s.pre[m] > 0 and not any(abs(r[t] - FREEZE - r[c] / (
                    r[m] * ref.cp_ice(x))) <= 1e-5 for x in bases) and not (
                        r['cc_s_0'] + r['cc_s_l'] == 0 and r[t] == FREEZE):
                return say(s, '%s = %r does not belong to cold content %r '
                           'of %r kg/m2' % (t, r[t], r[c], r[m]))
    return None


def bounds(s):
    r = s.rec
    for k, v in r.items():
        if k != 'date_time' and not math.isfinite(v):
            return say(s, '%s = %r' % (k, v))
    for k in ('t_s', 't_s_0', 't_s_l'):
        if not 0 < r[k] <= FREEZE + 1e-6:
            return say(s, '%s = %r K' % (k, r[k]))
    for k in ('cc_s_0', 'cc_s_l', 'cc_s'):
        if r[k] > 1e-6:
            return say(s, '%s = %r' % (k, r[k]))
    for k in ('m_s', 'm_s_0', 'm_s_l', 'z_s', 'z_s_0', 'z_s_l', 'h2o',
              'h2o_max', 'h2o_sat', 'h2o_vol', 'melt_sum', 'swi_sum', 'rho'):
        if k in r and r[k] < -1e-12:
            return say(s, '%s = %r is negative' % (k, r[k]))
    if r['rho'] > 600 * (1 + 1e-9):
        return say(s, 'rho = %r' % r['rho'])
    snow = r['z_s'] > 0
    if snow != (r['rho'] > 0) or snow != (r['m_s'] > 0):
        return say(s, 'depth %r, density %r, mass %r' % (
            r['z_s'], r['rho'], r['m_s']))
    if 'h2o_max' in r:
        if r['h2o'] > r['h2o_max'] * (1 + 1e-9) + 1e-9:
            return say(s, 'water %r above capacity %r' % (
                r['h2o'], r['h2o_max']))
        if r['h2o_sat'] > 1 + 1e-9:
            return say(s, 'saturation %r' % r['h2o_sat'])
        if r['h2o_vol'] > s.C['max_h2o_vol'] * (1 + 1e-9):
            return say(s, 'water volume ratio %r' % r['h2o_vol'])
    have = s.pre['m_s'] + s.f['m_pp']
    if r['E_s_sum'] < -have * (1 + 1e-9) - 1e-9:
        return say(s, 'E_s %r with only %r kg/m2 of snow' % (
            r['E_s_sum'], have))
    return None


def layers(s):
    r, C = s.rec, s.C
    if 'layer_count' in r:
        n = int(r['z_s_0'] > 0) + int(r['z_s_l'] > 0)
        if r['layer_count'] != n:
            return say(s, 'layer count %r with depths %r, %r' % (
                r['layer_count'], r['z_s_0'], r['z_s_l']))
    if off('z_s', r['z_s'], r['z_s_0'] + r['z_s_l']):
        return say(s, 'depths %r + %r != %r' % (
            r['z_s_0'], r['z_s_l'], r['z_s']))
    if off('m_s', r['m_s'], r['m_s_0'] + r['m_s_l']):
        return say(s, 'masses %r + %r != %r' % (
            r['m_s_0'], r['m_s_l'], r['m_s']))
    for m, z in (('m_s', 'z_s'), ('m_s_0', 'z_s_0'), ('m_s_l', 'z_s_l')):
        if off('m_s', r[m], r['rho'] * r[z]):
            return say(s, '%s = %r but rho * %s = %r' % (
                m, r[m], z, r['rho'] * r[z]))
    if r['z_s_l'] > 0 and not r['z_s_0'] > 0:
        return say(s, 'a lower layer without a surface layer')
    thr, mx = C['small_threshold'], C['max_z_s_0']
    if r['z_s_l'] > 0 and abs(r['z_s_0'] - mx) > 1e-9:
        return say(s, 'surface layer of %r m above a lower layer' % r['z_s_0'])
    if r['z_s'] > 0:
        # masses before the runoff of this step was taken out
        m = r['m_s'] + (r['swi_sum'] if s.snow else 0.0)
        low = (r['z_s'] - mx) * m / r['z_s']
        eps = 1e-6
        if r['z_s_l'] > 0 and low < thr - eps:
            return say(s, 'lower layer of only %r kg/m2' % low)
        if r['z_s_l'] == 0 and low > max(thr, 0) + eps:
            return say(s, 'no lower layer, but %r kg/m2 below the maximum '
                       'surface depth' % low)
        if m <= thr - eps:
            return say(s, 'snowcover of only %r kg/m2' % m)
    if r['z_s_l'] == 0:
        if r['m_s_l'] != 0 or r['cc_s_l'] != 0 or \
                abs(r['t_s_l'] - ref.MINT) > 1e-6:
            return say(s, 'absent lower layer has mass %r, cold content %r, '
                       'temperature %r' % (r['m_s_l'], r['cc_s_l'],
                                           r['t_s_l']))
    return None


layer_ref = against_ref(('z_s_0', 'z_s_l', 'm_s_0', 'm_s_l', 'layer_count',
                         'cc_s_l', 't_s_l'))


def bare(s):
    r = s.rec
    if r['z_s'] > 0:
        return None
    for k in ('rho', 'm_s', 'm_s_0', 'm_s_l', 'z_s', 'z_s_0', 'z_s_l',
              'cc_s_0', 'cc_s_l', 'h2o', 'h2o_max', 'h2o_sat', 'h2o_vol'):
        if k in r and r[k] != 0:
            return say(s, 'no snow, but %s = %r' % (k, r[k]))
    for k in ('t_s', 't_s_0', 't_s_l'):
        if abs(r[k] - ref.MINT) > 1e-6:
            return say(s, 'no snow, but %s = %r' % (k, r[k]))
    if s.snow:
        # everything that was there has left
        gone = s.pre['m_s'] + s.f['m_pp'] + r['E_s_sum']
        if off('swi_sum', r['swi_sum'], gone):
            return say(s, 'snow gone: swi %r, but %r kg/m2 were left' % (
                r['swi_sum'], gone))
    elif off('swi_sum', r['swi_sum'], s.f['m_pp']):
        return say(s, 'no snow: swi %r, precipitation %r' % (
            r['swi_sum'], s.f['m_pp']))
    return None


def below(pre, thr):
    """(definitely below, definitely not below) the mass threshold"""
    if pre['layer_count'] == 0:
        return False, True
    ms = [pre['m_s']] if pre['layer_count'] == 1 else [pre['m_s_0'],
                                                       pre['m_s_l']]
    e = 1e-7
    return any(m < thr - e for m in ms), all(
        m >= thr + e or m == thr for m in ms)


def division(c, steps):
    """C07 over the run steps of one data step"""
    n = c['norm_time_step'] * 60.0
    m = c['medium_time_step'] * 60.0
    sm = c['small_time_step'] * 60.0
    i = 0
    t = 0.0
    total = c['data_time_step'] * 60.0
    if not steps:
        return 'no run step in a data step'

    def take(want, why):
        nonlocal i, t
        if i >= len(steps):
            return 'run steps end %g s into a data step of %g s' % (t, total)
        if abs(steps[i].dt - want) > 1e-6:
            return say(steps[i], 'run step of %g s, should be %g s (%s)' % (
                steps[i].dt, want, why))
        t += steps[i].dt
        i += 1
        return None
    while t < total - 1e-6:
        if i >= len(steps):
            return 'run steps end %g s into a data step of %g s' % (t, total)
        yes, no = below(steps[i].pre, c['norm_threshold'])
        if not yes and not no:
            yes = steps[i].dt < n - 1e-6
        if not yes:
            e = take(n, 'no layer below the normal threshold')
            if e:
                return e
            continue
        for _ in range(int(round(n / m))):
            if i >= len(steps):
                return 'run steps end %g s into a data step' % t
            yes, no = below(steps[i].pre, c['medium_threshold'])
            if not yes and not no:
                yes = steps[i].dt < m - 1e-6
            if not yes:
                e = take(m, 'normal step divided, no layer below the medium '
                         'threshold')
                if e:
                    return e
                continue
            for _ in range(int(round(m / sm))):
                e = take(sm, 'medium step divided')
                if e:
                    return e
    if i != len(steps):
        return 'run steps go on after the end of the data step (%d of %d ' \
            'used)' % (i, len(steps))
    return None


def net_radiation(s):
    if not s.snow:
        return None
    want = ref.net_radiation(s.pre['t_s_0'], s.f['S_n'], s.f['I_lw'])
    if off('R_n', s.rec['R_n_bar'], want):
        return say(s, 'R_n = %r, should be %r' % (s.rec['R_n_bar'], want))
    return None


def advection(s):
    if not s.snow:
        return None
    want = ref.advection(s.pre, s.f, s.dt)
    if off('M', s.rec['M_bar'], want):
        return say(s, 'M = %r, should be %r' % (s.rec['M_bar'], want))
    return None


def conduction(s):
    if not s.snow:
        return None
    r, pre = s.rec, s.pre

    def bad(g):
        if off('G', r['G_bar'], g[0]):
            return 'G', r['G_bar'], g[0]
        if off('G_0', r['G_0_bar'], g[1]):
            return 'G_0', r['G_0_bar'], g[1]
    b = bad(ref.conduction(pre, s.f, s.C))
    if b:
        fs = [s.f]
        for d in (-1e-9, 1e-9):
            fs.append(dict(s.f, t_g=s.f['t_g'] + d))
        if abs(s.f['t_g'] - FREEZE) < 1e-9:
            fs.append(dict(s.f, t_g=FREEZE))
        ps = [pre]
        for k in ('t_s_0', 't_s_l'):
            if abs(pre[k] - FREEZE) < 1e-9:
                ps.append(dict(pre, **{k: FREEZE}))
                ps.append(dict(pre, **{k: FREEZE - 1e-9}))
        for f in fs:
            for p in ps:
                if not bad(ref.conduction(p, f, s.C)):
                    return None
        return say(s, '%s = %r, should be %r' % b)
    low = pre['t_s_l'] if pre['layer_count'] == 2 else pre['t_s_0']
    if (s.f['t_g'] - low) * r['G_bar'] < -1e-12:
        return say(s, 'soil at %r, snow at %r, but G = %r' % (
            s.f['t_g'], low, r['G_bar']))
    if pre['layer_count'] == 2 and \
            (pre['t_s_l'] - pre['t_s_0']) * r['G_0_bar'] < -1e-12:
        return say(s, 'layers at %r / %r, but G_0 = %r' % (
            pre['t_s_0'], pre['t_s_l'], r['G_0_bar']))
    return None


def turbulent(s):
    if not s.snow:
        return None
    h, le = s.rec['H_bar'], s.rec['L_v_E_bar']
    m = _turbulent(s.turb(), h, le)
    if m is None:
        return None
    # saturation jumps at freezing: an air temperature there up to rounding
    for d in (-1e-8, 1e-8):
        if abs(s.f['t_a'] - FREEZE) < 1e-8:
            f = dict(s.f, t_a=FREEZE + d)
            if _turbulent(ref.turb(s.pre, f, s.C), h, le) is None:
                return None
        if abs(s.pre['t_s_0'] - FREEZE) < 1e-8:
            if _turbulent(ref.turb(dict(s.pre, t_s_0=FREEZE - max(d, 0)), s.f,
                                   s.C), h, le) is None:
                return None
    return say(s, m)


def _turbulent(T, h, le):
    x = T.solve()

    def far(a, b, rel, ab):
        return not abs(a - b) <= ab + rel * max(abs(a), abs(b))
    if x is not None:
        if not far(h, x[0], 1e-4, 1e-7) and not far(le, x[1], 1e-4, 1e-7):
            return None
    if T.settled(h, le):
        return None
    res = T.residual(h, le)
    if res < 1e-3:
        return None
    if x is None and not math.isfinite(res):
        # fluxes vanish together: the equations are degenerate there
        if abs(h) < 1e-6 and abs(le) < 1e-6:
            return None
    return 'H = %r, L_v_E = %r do not solve the stability equations ' \
        '(mismatch %.3g, solution %r)' % (h, le, res, x and x[:2])


vapor = against_ref(('E_s_sum', 'z_s', 'water'))
density = against_ref(('rho', 'z_s', 'm_s'))
liquid = against_ref(('swi_sum', 'h2o', 'h2o_max', 'h2o_sat', 'h2o_vol'))
all_state = against_ref(ref.STATE + ('E_s_sum', 'melt_sum', 'swi_sum'))


def density_direct(s):
    r = s.rec
    if r['z_s'] > 0 and off('m_s', r['m_s'], r['rho'] * r['z_s']):
        return say(s, 'depth %r is not mass %r / density %r' % (
            r['z_s'], r['m_s'], r['rho']))
    if r['rho'] > 600 * (1 + 1e-9):
        return say(s, 'rho = %r' % r['rho'])
    return None


def vapor_direct(s):
    if not s.snow and s.rec['E_s_sum'] != 0:
        return say(s, 'no snow, but E_s = %r' % s.rec['E_s_sum'])
    return None


def liquid_direct(s):
    r = s.rec
    if 'h2o_max' not in r or r['z_s'] <= 0 or not s.snow or \
            s.pre['m_s'] <= s.C['small_threshold']:
        return None     # no pack, or a leftover that becomes water at once
    cap = ref.retention(r['z_s'], (r['m_s'] - r['h2o']) / r['z_s'],
                        s.C['max_h2o_vol'])
    if off('h2o_max', r['h2o_max'], cap):
        return say(s, 'capacity %r, should be %r' % (r['h2o_max'], cap))
    if r['h2o_max'] > 0:
        if abs(r['h2o_sat'] - r['h2o'] / r['h2o_max']) > 1e-6:
            return say(s, 'saturation %r with %r of %r' % (
                r['h2o_sat'], r['h2o'], r['h2o_max']))
        if abs(r['h2o_vol'] - r['h2o_sat'] * s.C['max_h2o_vol']) > 1e-9:
            return say(s, 'volume ratio %r at saturation %r' % (
                r['h2o_vol'], r['h2o_sat']))
        if r['swi_sum'] > 1e-6 and abs(r['h2o'] - r['h2o_max']) > 1e-6 * max(
                1, r['h2o_max']):
            return say(s, 'runoff %r from an unsaturated pack' % r['swi_sum'])
    return None


def precip_event(s):
    if not s.f['precip_now']:
        return None
    return all_state(s)


def forcing(s):
    """C08: everything in the energy terms that is direct in the forcing"""
    return net_radiation(s) or advection(s) or conduction(s)
