"""C19 saturation vapour pressure, C26 formulas cell by cell, C27 air pressure
and the conduction formulas of C14: enumerated argument spaces of the functions
themselves."""
import itertools
import math

from vlib import explore, model, oracles as o, ref, space, whole
from vlib.base import Check

F = ref.FREEZE


def close(a, b, rel=1e-9, ab=0.0):
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


def same(a, b):
    """equal arrays, nan equal to nan"""
    import numpy as np
    return a.shape == b.shape and bool(np.all((a == b) | (
        (a != a) & (b != b))))


class Function(Check):
    """cases are small dicts; judge(case) -> message or None"""

    def add(self, res, case):
        try:
            m = self.judge(case, res)
        except Exception as e:
            from vlib import env
            import sys
            if not env.from_repo(sys.exc_info()[2]):
                raise
            m = 'valid input %s: %s: %s' % (case, type(e).__name__, e)
        res.count('transitions')
        res.count('paths')
        res.states.add(explore.digest(sorted(case.items())))
        if m:
            res.bad(dict(case, kind='f'), m)
        elif len(res.samples) < 2:
            res.samples.append(case)
        return m is None

    def r_f(self, case):
        case = dict((k, v) for k, v in case.items() if k != 'kind')
        res = explore.Result()
        self.add(res, case)
        return [m for _, m in res.violations]


# ---------------------------------------------------------------------- C19
def near(x, n=3):
    """the n floats below and above x, and x"""
    out = [x]
    a = b = x
    for _ in range(n):
        a = math.nextafter(a, 0.0) if hasattr(math, 'nextafter') else \
            a * (1 - 2.0 ** -53)
        b = math.nextafter(b, 1e9) if hasattr(math, 'nextafter') else \
            b * (1 + 2.0 ** -52)
        out += [a, b]
    return sorted(set(out))


class Saturation(Function):
    id = 'C19'
    technique = 'enumeration of every temperature on a 0.01 K lattice and ' \
        'every arrangement of freezing, warm and impossible cells in arrays ' \
        'of every shape, against the Goff-Gratch formulas'
    assumptions = ['150 to 400 K; 0 K has no saturation pressure and is not '
                   'exercised']
    CELLS = [F - 30.25, F, F + 4.5, -1.0]
    SHAPES = [[], [0], [1], [2], [3], [4], [0, 3], [2, 0], [1, 3], [2, 2],
              [3, 1], [2, 1, 2], [1, 1, 1], [1, 4], [4, 1]]

    def bounds(self, tier):
        return {'temperatures': 'every %g K from 150 to 400 K and the floats '
                'around freezing' % self.lattice(tier),
                'arrays': 'every arrangement of cold, freezing, warm and '
                'negative cells in %d shapes, five memory layouts' % len(
                    self.SHAPES)}

    def lattice(self, tier):
        return .01 if tier == 'quick' else .001

    def vt(self, tier):
        n = 250
        out = [dict(campaign='scalar', lo=150 + i * 10, hi=160 + i * 10,
                    d=self.lattice(tier)) for i in range(n // 10)]
        out.append(dict(campaign='freeze'))
        out += [dict(campaign='arrays', shape=s) for s in self.SHAPES]
        return out

    def pp(self, tier):
        return [dict(campaign='scalar', lo=240, hi=300, d=.05),
                dict(campaign='freeze')] + [
            dict(campaign='arrays', shape=s) for s in self.SHAPES]

    def t_scalar(self, res, t):
        from pysnobal.point import libsnobal as lib
        n = int(round((t['hi'] - t['lo']) / t['d']))
        last = None
        for i in range(n + 1):
            tk = t['lo'] + i * t['d']
            case = dict(what='value', t=tk)
            if not self.add(res, case):
                return
            v = (lib.sati(tk), lib.satw(tk))
            if last is not None and not (v[0] > last[0] and v[1] > last[1]):
                res.bad(dict(kind='f', what='rise', a=last[2], b=tk),
                        'not increasing from %r to %r K' % (last[2], tk))
                return
            last = v + (tk,)

    def t_freeze(self, res, t):
        for x in near(F, 4) + [F - 1e-6, F + 1e-6, F - 1e-3, F + 1e-3, 273.15,
                               F - .01, F + .01]:
            self.add(res, dict(what='value', t=x))
        xs = [F - 1e-3, F - 1e-6, F, F + 1e-6, F + 1e-3]
        for a, b in zip(xs, xs[1:]):
            self.add(res, dict(what='rise', a=a, b=b))
        for x in (-1e-9, -.5, -1., -273.16, -1e6):
            self.add(res, dict(what='negative', t=x))
        self.add(res, dict(what='jump'))

    def t_arrays(self, res, t):
        n = 1
        for k in t['shape']:
            n *= k
        for cells in itertools.product(range(len(self.CELLS)), repeat=n):
            for layout in ('c', 'fortran', 'strided', 'readonly', 'offset'):
                self.add(res, dict(what='array', shape=t['shape'],
                                   cells=list(cells), layout=layout))
        if n:
            self.add(res, dict(what='ints', shape=t['shape']))

    def judge(self, case, res):
        from pysnobal.point import libsnobal as lib
        import numpy as np
        w = case['what']
        if w == 'value':
            t = case['t']
            for f, r in ((lib.sati, ref.sati), (lib.satw, ref.satw)):
                v = f(t)
                if not close(v, r(t)):
                    return '%s(%r) = %r, the formula gives %r' % (
                        f.__name__, t, v, r(t))
            if t > F and lib.sati(t) != lib.satw(t) and not close(
                    lib.sati(t), lib.satw(t), 1e-12):
                return 'sati(%r) = %r, satw gives %r' % (
                    t, lib.sati(t), lib.satw(t))
            for f, g in ((lib.sati, lib.sati_np), (lib.satw, lib.satw_np)):
                a, b = f(t), g(np.array([t]))
                if b.shape != (1,) or not close(a, float(b[0])):
                    return '%s(%r) = %r, the array version gives %r' % (
                        f.__name__, t, a, b)
            return None
        if w == 'rise':
            for f in (lib.sati, lib.satw):
                if not f(case['a']) < f(case['b']):
                    return '%s does not increase from %r to %r K' % (
                        f.__name__, case['a'], case['b'])
            return None
        if w == 'jump':
            a, b = lib.sati(F), lib.sati(near(F, 1)[-1])
            if not (abs(a - b) <= 1e-3 * a):
                return 'sati jumps from %r to %r at freezing' % (a, b)
            return None
        if w == 'negative':
            for f, g in ((lib.sati, lib.sati_np), (lib.satw, lib.satw_np)):
                try:
                    v = f(case['t'])
                except Exception:
                    pass
                else:
                    return '%s(%r) = %r instead of an error' % (
                        f.__name__, case['t'], v)
                v = g(np.array([case['t'], 280.]))
                if v[0] == v[0] or not close(float(v[1]), ref.satw(280.)):
                    return '%s([%r, 280]) = %r' % (g.__name__, case['t'], v)
            return None
        if w == 'ints':
            n = 1
            for k in case['shape']:
                n *= k
            a = (np.arange(n) * 7 + 255).reshape(case['shape'])
            vals = [float(x) for x in a.flat]
        else:
            vals = [self.CELLS[i] for i in case['cells']]
            a = layout(np.array(vals, dtype=float).reshape(case['shape']),
                       case['layout'])
        for g, r in ((lib.sati_np, ref.sati), (lib.satw_np, ref.satw)):
            before = a.copy()
            v = g(a)
            if not same(before, a):
                return '%s changed its argument from %s to %s' % (
                    g.__name__, before.tolist(), a.tolist())
            v = np.asarray(v)
            if v.shape != a.shape:
                return '%s of shape %s has shape %s' % (
                    g.__name__, a.shape, v.shape)
            for i, (x, y) in enumerate(zip(a.flat, v.flat)):
                if not (y != y if x < 0 else close(r(x), float(y))):
                    return '%s: cell %d of %s is %r' % (
                        g.__name__, i, a.tolist(), float(y))
            if res and a.size == 0:
                res.out('empty array')
        return None


def layout(a, how):
    """the same array in another memory layout"""
    import numpy as np
    if how == 'fortran':
        return np.asfortranarray(a)
    if how == 'strided':
        b = np.full([2 * k for k in a.shape] or [], np.nan)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        if a.shape:
            v[...] = a
            return v
        return a
    if how == 'readonly':
        a = a.copy()
        a.flags.writeable = False
        return a
    if how == 'offset':
        b = np.empty([k + 1 for k in a.shape])
        v = b[tuple(slice(1, None) for _ in a.shape)]
        if a.shape:
            v[...] = a
            return v
        return a
    return a


# ---------------------------------------------------------------------- C26
def hysat(pb, tb, L, h, g, m):
    if L == 0:
        return pb * math.exp(-g * m * h * 1e3 / (ref.RGAS * tb))
    return pb * (tb / (tb + L * h)) ** (g * m * 1e3 / (ref.RGAS * L))


T_ = [200., 253.15, F - .01, F, 280., 300.]
P_ = [4e4, 8.5e4, 1.013246e5]
E_ = [1., 300., 611., 2500.]
Z_ = [0., .01, .4, 3.]

# name -> (module, [values of each argument], published formula)
FORMULAS = dict(
    k_to_c=('functions', [T_], lambda t: t - F),
    cp_ice=('functions', [T_], ref.cp_ice),
    cp_water=('functions', [T_], ref.cp_water),
    lh_vap=('functions', [T_], ref.lh_vap),
    lh_fus=('functions', [T_], ref.lh_fus),
    lh_sub=('functions', [T_], lambda t: ref.lh_vap(t) + ref.lh_fus(t)),
    gas_density=('functions', [P_, [28.9644, 18.0153], T_],
                 lambda p, m, t: p * m / (ref.RGAS * t)),
    virtual_temperature=(
        'functions', [T_, E_, P_], lambda t, e, p: t / (
            1 - (1 - ref.MH2O / ref.MAIR) * e / p)),
    mix_ratio=('functions', [E_, P_],
               lambda e, p: ref.MH2O / ref.MAIR * e / (p - e)),
    diffusion_coef=('functions', [P_, T_], ref.diffusion),
    vapor_flux=('functions', [[.7, 1.2], [1e-5, 8e-5],
                              [-.004, 0., 1e-6, .01], [.01, .25, 2.]],
                lambda d, k, q, z: d * k * q / z),
    time_average=('functions', [[-50., 0., 12.], [60., 3600.],
                                [-3., 0., 700.], [60., 900.]],
                  lambda a, t, v, i: (a * t + v * i) / (t + i)),
    hysat=('functions', [[1.013246e5, 5e4], [288., 260.], [-6.5, 0, 3.],
                         [-.4, 0., .5, 4.], [9.80665], [28.9644]], hysat),
    spec_hum=('libsnobal', [E_, P_], ref.spec_hum),
    h2o_left=('snow', [Z_, [50., 300., 550., 900.], [0., .01, .5, 1.]],
              lambda d, r, s: s * d * ref.RHO_W * (ref.RHO_I - r) /
              ref.RHO_I),
    melt=('snow', [[-1e4, 0., 333600., 2e6]], lambda q: q / 3.336e5),
    new_tsno=('snow', [[.5, 20., 800.], [220., F - 5, F],
                       [-3e6, -1e4, -1., 0.]],
              lambda m, t, c: c / (m * ref.cp_ice(t)) + F),
    heat_stor=('snow', [[1800., 2100.], [0., 5., 900.], [-30., -.5, 0., 4.]],
               lambda c, m, d: c * m * d),
    kts=('state', [[50., 300., 550., 600.]],
         lambda r: ref.CAL * .0077 * (r / 1000.) ** 2),
    dry_snow_density=('state', [[60., 300., 600.], [0., .01, .06]],
                      lambda r, v: (r - v * ref.RHO_W) / (
                          1 - v * ref.RHO_W / ref.RHO_I)),
)
for _n in ('kts', 'dry_snow_density', 'new_tsno'):
    FORMULAS['spatial ' + _n] = ('spatial',) + FORMULAS[_n][1:]
LABELS = dict(scalar_only=('hysat:2',))      # the lapse rate is a constant


def module(name):
    import importlib
    return importlib.import_module(
        'pysnobal.point.libsnobal' if name == 'libsnobal' else
        'pysnobal.core.' + name)


def function(name):
    """callable for a formula, None when this tree has no such function"""
    where, _, _ = FORMULAS[name]
    if where == 'state':
        from pysnobal.point import SnowState

        def f(*a):
            s = SnowState()
            for k, v in zip(('rho', 'h2o_vol'), a):
                setattr(s, k, v)
            return getattr(s, name)
        return f if hasattr(SnowState, name) else None
    if where == 'spatial':
        return spatial(name.split()[1])
    try:
        return getattr(module(where), name, None)
    except ImportError:
        return None


def spatial(name):
    """the gridded snow state's own version"""
    try:
        from pysnobal.spatial import SpatialSnowState
        s = SpatialSnowState(0)
    except Exception:
        return None
    if not hasattr(SpatialSnowState, name):
        return None
    if name == 'new_tsno':
        return s.new_tsno

    def f(*a):
        for k, v in zip(('rho', 'h2o_vol'), a):
            setattr(s, k, v)
        return getattr(s, name)
    return f


class Formulas(Function):
    id = 'C26'
    technique = 'enumeration of the argument lattice of every formula, on ' \
        'scalars and in every scalar/array/labelled-grid combination of the ' \
        'arguments, against the published value cell by cell'
    assumptions = ['argument lattices in checks/formulas.py; arguments of one '
                   'call have one shape or are scalars']
    SHAPES = [[0], [1], [3], [2, 3], [2, 1, 2], [0, 2], []]

    def bounds(self, tier):
        return {'formulas': len(FORMULAS),
                'scalars': 'every combination of the argument values',
                'arrays': 'every choice of array arguments, %d shapes, plain, '
                'read-only, strided arrays and labelled grids' % len(
                    self.SHAPES),
                'averages': 'both snow states, every sequence of up to %d '
                'run steps of 3 lengths and new records, on scalars, plain '
                'and read-only arrays and labelled grids' % (
                    4 if tier == 'quick' else 6)}

    def pp(self, tier):
        return [dict(campaign='formula', name=n, tier=tier)
                for n in sorted(FORMULAS)] + [
                    dict(campaign='average', cls=c, layout=k, tier=tier)
                    for c in ('point', 'spatial')
                    for k in ('scalar', 'c', 'readonly', 'grid')]

    def vt(self, tier):
        return [dict(campaign='scalars', name=n) for n in sorted(FORMULAS)]

    def t_average(self, res, t):
        """every word over: a new record (N), a run step of 60, 900 or
        3600 s"""
        if snow_state(t['cls']) is None:
            res.out('not there: averages of ' + t['cls'])
            return
        for n in range(1, 5 if t['tier'] == 'quick' else 7):
            for w in itertools.product('N123', repeat=n - 1):
                for shape in ([], [3], [2, 2]) if t['layout'] != 'scalar' \
                        else ([],):
                    if not self.add(res, dict(
                            what='average', cls=t['cls'], shape=shape,
                            layout=t['layout'], word='N' + ''.join(w))):
                        return

    def t_scalars(self, res, t):
        if function(t['name']) is None:
            res.out('not there: ' + t['name'])
            return
        for a in itertools.product(*FORMULAS[t['name']][1]):
            if not self.add(res, dict(what='scalar', name=t['name'],
                                      args=list(a))):
                return

    def t_formula(self, res, t):
        self.t_scalars(res, t)
        n = t['name']
        if function(n) is None or res.violations:
            return
        args = FORMULAS[n][1]
        k = len(args)
        fixed = [i for i in range(k) if '%s:%d' % (n, i) in
                 LABELS['scalar_only']]
        for mask in itertools.product((0, 1), repeat=k):
            if not any(mask) or any(mask[i] for i in fixed):
                continue
            total = 1
            for a in args:
                total *= len(a)
            for shape in self.SHAPES + [[total], [2, (total + 1) // 2]]:
                for kind in ('c', 'readonly', 'strided', 'grid'):
                    for shift in range(1 if t['tier'] == 'quick' else 4):
                        if not self.add(res, dict(
                                what='array', name=n, mask=list(mask),
                                shape=shape, layout=kind, shift=shift)):
                            return

    def judge(self, case, res):
        import numpy as np
        if case['what'] == 'average':
            return averages(case)
        n = case['name']
        f, r = function(n), FORMULAS[n][2]
        if case['what'] == 'scalar':
            a = case['args']
            v = float(f(*a))
            w = r(*a)
            if not close(v, w, 1e-9, 1e-300):
                return '%s%r = %r, published value %r' % (n, tuple(a), v, w)
            return None
        args = FORMULAS[n][1]
        shape = case['shape']
        size = 1
        for d in shape:
            size *= d
        cells, real = [], []
        combos = list(itertools.product(*args))
        # cells take the argument combinations in turn; scalar arguments keep
        # their first value (rotated by shift)
        base = combos[(case['shift'] * 7) % len(combos)]
        step = max(1, len(combos) // max(1, size)) | 1
        for i, on in enumerate(case['mask']):
            if on:
                cells.append([combos[(j * step + case['shift'] + i) %
                                     len(combos)][i] for j in range(size)])
                arr = np.array(cells[-1], dtype=float).reshape(shape)
                real.append(wrap(arr, case['layout']))
            else:
                cells.append([base[i]] * size)
                real.append(base[i])
        before = [np.array(x, dtype=float) for x in real]
        v = f(*real)
        for i, x in enumerate(real):
            if not same(np.asarray(x, dtype=float), before[i]):
                return '%s changed its argument %d' % (n, i)
        ex = next(x for x, on in zip(real, case['mask']) if on)
        if case['layout'] == 'grid':
            m = labels(v, ex)
            if m:
                return '%s on a labelled grid: %s' % (n, m)
        elif np.shape(v) != tuple(shape):
            return '%s of shape %s has shape %s' % (n, shape, np.shape(v))
        out = np.asarray(v, dtype=float)
        for j, y in enumerate(out.flat):
            w = r(*[c[j] for c in cells])
            if not close(float(y), w, 1e-9, 1e-300):
                return '%s on %s: cell %d (%r) is %r, published value %r' % (
                    n, case['layout'], j, tuple(c[j] for c in cells),
                    float(y), w)
        return None


MEANS = ('R_n', 'H', 'L_v_E', 'G', 'G_0', 'M', 'delta_Q', 'delta_Q_0')
SUMS = ('E_s', 'melt', 'swi')


def snow_state(cls):
    try:
        if cls == 'spatial':
            from pysnobal.spatial import SpatialSnowState as S
        else:
            from pysnobal.point import SnowState as S
        s = S(0)
    except Exception:
        return None
    ok = hasattr(s, 'value_to_bar') and hasattr(s, 'time_average') and all(
        hasattr(s, k + '_bar') for k in MEANS) and hasattr(s, 'E_s_sum')
    return s if ok else None


def averages(case):
    """a snow state averages a sequence of run steps (the first of a record
    is copied, the later ones are averaged in), cell by cell"""
    import numpy as np
    s = snow_state(case['cls'])
    shape = case['shape']
    size = 1
    for d in shape:
        size *= d
    given, mean, total, since = [], None, None, 0.
    for j, letter in enumerate(case['word']):
        dt = dict(N=900., **{'1': 60., '2': 900., '3': 3600.})[letter]
        vals = {}
        for i, k in enumerate(MEANS + SUMS):
            vals[k] = [((i * 7 + j * 13 + c * 5) % 23 - 9) * 1.25 ** (j - i)
                       for c in range(size)]
            if case['layout'] == 'scalar':
                x = vals[k][0]
            else:
                a = np.array(vals[k], dtype=float).reshape(shape)
                x = wrap(a, case['layout'])
            given.append((k, j, x, np.array(x, dtype=float)))
            setattr(s, k, x)
        if letter == 'N':
            since = 0.
            s.value_to_bar()
            mean = dict((k, vals[k]) for k in MEANS)
            total = dict((k, vals[k]) for k in SUMS)
        else:
            s.time_average(since, dt)
            mean = dict((k, [(a * since + b * dt) / (since + dt)
                             for a, b in zip(mean[k], vals[k])])
                        for k in MEANS)
            total = dict((k, [a + b for a, b in zip(total[k], vals[k])])
                         for k in SUMS)
        since += dt
        for k in MEANS + SUMS:
            got = getattr(s, k + ('_bar' if k in MEANS else '_sum'))
            want = (mean if k in MEANS else total)[k]
            if np.shape(got) != tuple(shape):
                return '%s of shape %s has a shape of %s' % (
                    k, shape, np.shape(got))
            if case['layout'] == 'grid':
                m = labels(got, given[-1][2])
                if m:
                    return 'average of %s on a labelled grid: %s' % (k, m)
            for c, (x, y) in enumerate(zip(
                    np.asarray(got, dtype=float).flat, want)):
                if not close(float(x), y, 1e-9, 1e-9):
                    return '%s after %s: cell %d of the %s is %r, should ' \
                        'be %r' % (k, case['word'][:j + 1], c, 'mean' if k in
                                   MEANS else 'sum', float(x), y)
        for k, i, x, before in given:
            if not same(np.asarray(x, dtype=float), before):
                return 'averaging %s changed the values of %s that run ' \
                    'step %d was given' % (case['word'][:j + 1], k, i)
    return None


def wrap(a, how):
    if how != 'grid':
        return layout(a, how)
    import xarray as xr
    dims = ['y', 'x', 'k'][:a.ndim]
    return xr.DataArray(
        a, dims=dims, coords=dict((d, [10. * (i + 1) + j for j in range(n)])
                                  for i, (d, n) in enumerate(
                                      zip(dims, a.shape))))


def labels(v, ex):
    import xarray as xr
    if not isinstance(v, xr.DataArray):
        return 'the result is a %s' % type(v).__name__
    if v.dims != ex.dims or v.shape != ex.shape:
        return 'dimensions %s%s instead of %s%s' % (
            v.dims, v.shape, ex.dims, ex.shape)
    for d in ex.dims:
        if d not in v.coords or v.coords[d].values.tolist() != \
                ex.coords[d].values.tolist():
            return 'labels of %s are lost' % d
    return None


# ---------------------------------------------------------------------- C27
class Pressure(Function):
    id = 'C27'
    technique = 'enumeration of the elevation, lapse-rate and layer lattice ' \
        'of the hydrostatic integral (values, composition, monotony, ' \
        'zero-lapse limit), and whole-program runs at every elevation judged ' \
        'by the pressure-dependent fluxes'
    assumptions = ['elevations from -500 to 9000 m, lapse rates within '
                   '-12 .. 12 K/km']
    LAPSE = [-12., -9.8, -6.5, -3., -1., -.1, -1e-3, 0, 1e-3, .1, 2., 6.5,
             12.]
    H = [-.5, -.1, 0., .05, .3, 1., 2.5, 5., 9.]
    TB = [230., 260., 288., 310.]
    PB = [1.013246e5, 6e4]
    ELEV = [-400., 0., 1., 150., 1500., 3097., 5500., 8848.]
    G, M = ref.GRAV, ref.MAIR

    def bounds(self, tier):
        return {'integral': '%d lapse rates x %d thicknesses x %d '
                'temperatures x %d pressures, composed from %d parts' % (
                    len(self.LAPSE), len(self.H), len(self.TB), len(self.PB),
                    len(self.H)),
                'elevations in the model': 'every metre from -500 to 9000',
                'whole program': '%d elevations' % len(self.ELEV)}

    def vt(self, tier):
        return [dict(campaign='integral', lapse=L) for L in self.LAPSE] + \
            [dict(campaign='limit'), dict(campaign='order')] + \
            [dict(campaign='site', lo=-500 + 500 * i) for i in range(19)]

    def pp(self, tier):
        return [dict(campaign='runs', i=i, tier=tier)
                for i in range(len(self.ELEV))]

    def t_integral(self, res, t):
        for h, tb, pb in itertools.product(self.H, self.TB, self.PB):
            for h1 in self.H:
                self.add(res, dict(what='compose', args=[pb, tb, t['lapse'],
                                                         h], h1=h1))

    def t_limit(self, res, t):
        for h, tb, pb in itertools.product(self.H, self.TB, self.PB):
            for k in range(2, 13):
                for sg in (-1, 1):
                    self.add(res, dict(what='limit', args=[
                        pb, tb, sg * 10. ** -k, h]))

    def t_order(self, res, t):
        for L, tb, pb in itertools.product(self.LAPSE, self.TB, self.PB):
            for a, b in zip(self.H, self.H[1:]):
                self.add(res, dict(what='order', args=[pb, tb, L], a=a, b=b))

    def t_site(self, res, t):
        for z in range(t['lo'], t['lo'] + 500 + 1):
            if not self.add(res, dict(what='site', z=float(z))):
                return

    def judge(self, case, res):
        from pysnobal.core.functions import hysat as f
        w = case['what']
        if w in ('compose', 'limit', 'order'):
            a = case['args']
        if w == 'compose':
            pb, tb, L, h = a
            v = float(f(pb, tb, L, h, self.G, self.M))
            x = hysat(pb, tb, L, h, self.G, self.M)
            n = integral(pb, tb, L, h)
            if not close(v, x, 1e-8) or not close(v, n, 1e-6):
                return 'hysat(%r) = %r, the integral is %r' % (a, v, n)
            if h == 0 and v != pb and not close(v, pb, 1e-12):
                return 'hysat(%r) over nothing = %r' % (a, v)
            h1 = case['h1']
            mid = float(f(pb, tb, L, h1, self.G, self.M))
            y = float(f(mid, tb + L * h1, L, h - h1, self.G, self.M))
            if not close(v, y, 1e-8):
                return 'hysat(%r) = %r, in parts at %r km %r' % (a, v, h1, y)
            return None
        if w == 'limit':
            pb, tb, L, h = a
            v = float(f(pb, tb, L, h, self.G, self.M))
            z = float(f(pb, tb, 0, h, self.G, self.M))
            want = hysat(pb, tb, 0, h, self.G, self.M)
            if not close(z, want, 1e-9):
                return 'hysat without lapse rate (%r) = %r, not %r' % (
                    a, z, want)
            # relative change is g m h^2 L / (2 R tb^2), and rounding of
            # tb / (tb + L h) to the power g m / (R L)
            tol = 40 * h * h * abs(L) / tb + 1e-13 / abs(L)
            if not close(v, z, tol + 1e-9):
                return 'hysat(%r) = %r does not approach %r' % (a, v, z)
            return None
        if w == 'order':
            pb, tb, L = a
            hi = float(f(pb, tb, L, case['a'], self.G, self.M))
            lo = float(f(pb, tb, L, case['b'], self.G, self.M))
            if not lo < hi:
                return 'pressure does not fall from %r to %r km (%r): %r, %r' \
                    % (case['a'], case['b'], a, hi, lo)
            return None
        if w == 'site':
            z = case['z']
            sn = model.make(dict(space.CONFIGS[0], elevation=z),
                            dict(model.BARE))
            p = getattr(sn, 'P_a', None)
            if p is None:
                res.out('the model keeps its pressure elsewhere')
                return None
            p = float(p)
            if not close(p, ref.air_pressure(z), 1e-9):
                return 'pressure at %r m is %r, the standard atmosphere has ' \
                    '%r' % (z, p, ref.air_pressure(z))
            if z == 0 and not close(p, ref.SEA_LEVEL, 1e-12):
                return 'pressure at sea level is %r' % p
            return None
        c = dict((k, v) for k, v in case.items() if k not in ('what', 'kind'))
        return whole.judge(c, res, oracle=o.both(o.turbulent, o.conduction))

    def t_runs(self, res, t):
        ks = space.key_states()
        for j, k in enumerate((4, 6, 3) if t['tier'] == 'quick' else
                              range(12)):
            c = dict(space.CONFIGS[0], elevation=self.ELEV[t['i']])
            from checks.program import base_case
            from vlib.base import driver_init
            self.add(res, dict(base_case(
                cfg=c, init=driver_init(ks[k]), mode='all',
                weather=whole.short_history(6, t['i'] + j)), what='run'))
            res.count('whole program runs')


def integral(pb, tb, L, h, n=400):
    """Simpson integral of d ln p = - g m / (R T(z)) dz"""
    s = 0.0
    d = h / n
    for i in range(n + 1):
        w = 1 if i in (0, n) else 4 if i % 2 else 2
        s += w / (tb + L * i * d)
    return pb * math.exp(-ref.GRAV * ref.MAIR * 1e3 / ref.RGAS * s * d / 3)


# ---------------------------------------------------- C14: the formulas alone
class Conduction(object):
    K = [.02, .12, .7, 1.65, 2.5]
    T = [F - 30, F - 8, F - .5, F - 1e-3, F, F + 1e-3, F + 2, F + 12]
    D = [.01, .1, .25, .5, 3.]
    P = [5e4, 7.7e4, 1.013246e5]

    def bounds(self, tier):
        return {'conduction formulas': '%d conductivities x %d temperatures x '
                '%d pressures; %d layer pairs' % (
                    len(self.K), len(self.T), len(self.P),
                    (len(self.K) * len(self.T) * len(self.D)) ** 2)}

    def vt(self, tier):
        return [dict(campaign='efcon')] + [
            dict(campaign='ssxfr', k=i, thin=5 if tier == 'quick' else 1)
            for i in range(len(self.K))]

    def pp(self, tier):
        return []

    def t_efcon(self, res, t):
        for k, tl, p in itertools.product([0.] + self.K, self.T, self.P):
            for give in (False, True):
                self._add(res, dict(kind='efcon', args=[k, tl, p], give=give))

    def t_ssxfr(self, res, t):
        one = list(itertools.product([self.K[t['k']]], self.T, self.D))
        two = list(itertools.product(self.K, self.T, self.D))
        for i, a in enumerate(one):
            for j, b in enumerate(two):
                if (i + j) % t['thin'] == 0:
                    self._add(res, dict(kind='ssxfr', a=list(a), b=list(b)))
                    if len(res.violations) > 2:
                        return

    def _add(self, res, case):
        m = (self.efcon if case['kind'] == 'efcon' else self.ssxfr)(case, res)
        res.count('transitions')
        res.count('paths')
        res.states.add(explore.digest(case))
        if m:
            res.bad(case, m)

    def efcon(self, case, res=None):
        from pysnobal.point import libsnobal as lib
        f = getattr(lib, 'efcon', None)
        if f is None:
            return None
        k, t, p = case['args']
        v = f(k, t, p, ref.sati(t)) if case['give'] else f(k, t, p)
        if not close(v, ref.efcon(k, t, p)):
            return 'effective conductivity of %r is %r, not %r' % (
                case['args'], v, ref.efcon(k, t, p))
        return None

    def ssxfr(self, case, res=None):
        from pysnobal.point import libsnobal as lib
        f = getattr(lib, 'ssxfr', None)
        if f is None:
            return None
        (k1, t1, d1), (k2, t2, d2) = case['a'], case['b']
        v = f(k1, k2, t1, t2, d1, d2)
        w = ref.conduct(k1, k2, t1, t2, d1, d2)
        if not close(v, w, 1e-9, 1e-12):
            return 'heat flow between %r and %r is %r, not %r' % (
                case['a'], case['b'], v, w)
        if (t2 > t1 and not v > 0) or (t2 < t1 and not v < 0) or \
                (t1 == t2 and v != 0):
            return 'heat flow between %r and %r is %r' % (
                case['a'], case['b'], v)
        b = f(k2, k1, t2, t1, d2, d1)
        if not close(v, -b, 1e-9, 1e-12):
            return 'heat flow %r, in the other direction %r' % (v, b)
        return None

    def r_efcon(self, case):
        m = self.efcon(case)
        return [m] if m else []

    def r_ssxfr(self, case):
        m = self.ssxfr(case)
        return [m] if m else []


CHECKS = [Saturation(), Formulas(), Pressure()]
