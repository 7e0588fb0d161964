"""Exhaustive exploration of the real point model over the bounded spaces.

A check gives an oracle (function of a model.Step, None or message) and this
module runs it on every run step of every history of a task.  Tasks are small
JSON-able dicts so that they can be spread over processes.
"""
import array
import hashlib

from . import model, ref, space, triples

def digest(x):
    """stable 64 bit identity of a printable value"""
    return int.from_bytes(hashlib.md5(repr(x).encode()).digest()[:8],
                          'little', signed=True)


MAXV = 3          # violations kept per task


class Result(object):

    def __init__(self):
        self.n = {}            # counters
        self.outcomes = {}     # what happened (non-vacuity)
        self.violations = []   # [case, message]
        self.known = {}        # finding key -> [message, count]
        self.states = set()
        self.samples = []

    def count(self, k, d=1):
        self.n[k] = self.n.get(k, 0) + d

    def out(self, k, d=1):
        self.outcomes[k] = self.outcomes.get(k, 0) + d

    def bad(self, case, msg):
        self.count('violating')
        if len(self.violations) < MAXV:
            self.violations.append([case, msg])

    def know(self, key, msg, path):
        if key not in self.known:
            self.known[key] = [msg, 0, path()]
        self.known[key][1] += 1

    def dump(self):
        return dict(n=self.n, outcomes=self.outcomes, known=self.known,
                    violations=self.violations, samples=self.samples[:2],
                    states=array.array('q', self.states).tobytes())


def see(res, s):
    """count what a step did"""
    r, pre, o = s.rec, s.pre, res.out
    res.count('transitions')
    res.states.add(hash((round(r['m_s'], 6), round(r['z_s'], 8),
                         round(r['t_s_0'], 6), round(r['t_s_l'], 6),
                         round(r['h2o'], 7), round(r['cc_s_0'], 2))))
    a, b = int(pre['layer_count']), int(r['z_s_0'] > 0) + int(r['z_s_l'] > 0)
    o('layers %d->%d' % (a, b))
    o('run step %g s' % s.dt)
    if r['melt_sum'] > 0:
        o('melt')
    if r['swi_sum'] > 0:
        o('runoff')
    if r['rho'] >= 600:
        o('density clipped')
    if s.f['precip_now']:
        p = s.f
        o('%s on %s' % ('mixed' if p['m_rain'] > 0 < p['m_snow'] else
                        'rain' if p['m_rain'] > 0 else
                        'warm snow' if p['h2o_sat_snow'] else 'cold snow',
                        'snow' if a else 'bare ground'))
    if a and r['h2o'] + r['swi_sum'] + 1e-9 < pre['h2o'] + r['melt_sum'] + \
            s.f['m_rain']:
        o('water refrozen or evaporated')


def report(res, oracle, steps, path):
    """apply the oracle; path() builds the replayable case"""
    for s in steps:
        if model.near(s.c, s.pre):
            res.out('snow reached the instruments')
            return False
        see(res, s)
        m = oracle(s)
        if m:
            if isinstance(m, tuple):
                res.know(m[0], m[1], path)
            else:
                res.bad(path(), m)
                return False
    return True


def stopped(res, oracle_stop, exc, c, pre, st, path):
    why = model.classify(exc, c, pre)
    msg = '%s: %s' % (type(exc).__name__, exc)
    if why == 'noconv':
        m = oracle_stop(st, msg) if oracle_stop else None
        res.out('flux iteration did not converge')
    elif why == 'heights':
        m = None
        res.out('snow reached the instruments')
    else:
        m = 'valid input, but the model stops with ' + msg
    if m:
        res.bad(path(), m)


class Runner(object):
    """walks histories; oracle(step) per run step, data_oracle(c, steps) per
    data step, oracle_stop(info, msg) when the flux iteration gives up"""

    def __init__(self, oracle, data_oracle=None, oracle_stop=None):
        self.oracle = oracle or (lambda s: None)
        self.data_oracle = data_oracle
        self.oracle_stop = oracle_stop

    def _data(self, res, c, steps, path):
        if self.data_oracle:
            m = self.data_oracle(c, steps)
            if m:
                res.bad(path(), m)
                return False
        return True

    def chain(self, res, case):
        """one history, start to end"""
        c, init, ws = case['cfg'], case['init'], case['weather']
        res.count('histories')
        C = model.constants(c, init)

        def path():
            return dict(case, weather=ws[:k + 2])
        k = 0
        try:
            sn = model.make(c, init)
            pre = model.state(sn)
        except Exception as e:
            res.bad(case, 'cannot start: %s: %s' % (type(e).__name__, e))
            return
        cur, t = model.record(ws[0]), model.T0
        for k in range(len(ws) - 1):
            nxt = model.record(ws[k + 1])
            err = None
            try:
                recs = model.step(sn, cur, nxt)
            except Exception as e:
                recs = [model.plain(r) for r in sn.output_list]
                err = e
            steps, pre, t = model.steps_of(c, C, pre, ws[k], ws[k + 1], recs,
                                           t, k)
            if not report(res, self.oracle, steps, path):
                return
            if err is not None:
                self._stop(res, err, c, C, pre, steps, ws[k], ws[k + 1], path)
                return
            if not self._data(res, c, steps, path):
                return
            cur = nxt
        res.count('paths')
        if len(res.samples) < 2 and len(ws) < 60:
            res.samples.append(case)

    def _stop(self, res, err, c, C, pre, steps, w1, w2, path):
        el = sum(s.dt for s in steps)
        f = ref.forcing(w1, w2, el / (c['data_time_step'] * 60.), 1.0)
        stopped(res, self.oracle_stop, err, c, pre, (pre, f, C), path)

    def tree(self, res, c, init, levels, case=None):
        """all histories w0 w1 .. with w_i from levels[i], depth first"""
        C = model.constants(c, init)
        try:
            sn = model.make(c, init)
            pre0 = model.state(sn)
        except Exception as e:
            res.bad(dict(kind='model', cfg=c, init=init,
                         weather=[l[0] for l in levels]),
                    'cannot start: %s: %s' % (type(e).__name__, e))
            return
        ws = []

        def path():
            return dict(kind='model', cfg=c, init=init, weather=list(ws))

        def go(sn, cur, pre, t, i):
            opts = levels[i]
            for j, w in enumerate(opts):
                if j < len(opts) - 1:
                    sn2, cur2 = model.fork(sn, cur)
                else:
                    sn2, cur2 = sn, cur
                nxt = model.record(w)
                ws.append(w)
                w1 = ws[-2]
                try:
                    recs = model.step(sn2, cur2, nxt)
                    err = None
                except Exception as e:
                    recs = [model.plain(r) for r in sn2.output_list]
                    del sn2.output_list[:]
                    err = e
                steps, pre2, t2 = model.steps_of(c, C, pre, w1, w, recs, t,
                                                 len(ws) - 2)
                ok = report(res, self.oracle, steps, path)
                if err is not None:
                    if ok:
                        self._stop(res, err, c, C, pre2, steps, w1, w, path)
                    ok = False
                elif ok:
                    ok = self._data(res, c, steps, path)
                if ok and i + 1 < len(levels):
                    go(sn2, nxt, pre2, t2, i + 1)
                elif i + 1 == len(levels):
                    res.count('paths')
                    if len(res.samples) < 2:
                        res.samples.append(path())
                ws.pop()
        roots = levels[0]
        for j, w in enumerate(roots):
            s2 = sn if j == len(roots) - 1 else model.fork(sn)[0]
            ws.append(w)
            go(s2, model.record(w), pre0, model.T0, 1)
            ws.pop()

    def evaluate(self, case, known=()):
        """messages of one case from scratch (replay); findings that are not
        listed count"""
        res = Result()
        if 'script' in case:
            self.scripted(res, case)
        else:
            self.chain(res, case)
        return [m for _, m in res.violations] + [
            v[0] for k, v in res.known.items() if k not in known]

    # ------------------------------------------------------------- campaigns
    def run(self, task):
        res = Result()
        getattr(self, 'c_' + task['campaign'])(res, task)
        return res

    def c_grid(self, res, t):
        """every initial state x every archetype record, followed by a second
        record that rotates through the archetypes"""
        states = space.grid_states(**t.get('states', {}))
        ws = space.archetypes()
        n = len(ws)
        for i in range(t['part'], len(states), t['of']):
            for j, w in enumerate(ws):
                if (i + j) % t.get('thin', 1):
                    continue
                w2 = ws[(i * 7 + j * 5 + 3) % n]
                self.chain(res, dict(kind='model', cfg=space.CONFIGS[0],
                                     init=states[i], weather=[w, w2]))

    def c_dev(self, res, t):
        """every record within two deviations of a base record, as first, as
        second and as both records of a data step"""
        states = space.key_states()
        base = [space.COLD, space.NEAR, space.HOT][t['base']]
        base = dict(base, **space.NONE)
        wb = model.weather(**base)
        for i, d in enumerate(space.deviations(base, t.get('order', 2))):
            if i % t['of'] != t['part']:
                continue
            w = model.weather(**d)
            for j, init in enumerate(states):
                if (i + j) % t.get('thin', 1):
                    continue
                for ws in ([w, wb], [wb, w], [w, w])[:t.get('pairs', 3)]:
                    self.chain(res, dict(kind='model', cfg=space.CONFIGS[0],
                                         init=init, weather=ws))

    def c_seq(self, res, t):
        """all weather sequences of length depth+1 from one initial state"""
        init = space.key_states()[t['state']]
        c = space.CONFIGS[t.get('cfg', 0)]
        al = space.ALPHA
        levels = [[al[t['first']]]] + [al] * t['depth']
        self.tree(res, c, init, levels)

    def c_cfg(self, res, t):
        """one configuration x key states x weather pairs x continuation"""
        c = space.CONFIGS[t['cfg']]
        for init in space.key_states():
            for a, b in space.WEATHER_PAIRS:
                for third in space.ALPHA[:t.get('third', 3)]:
                    self.chain(res, dict(kind='model', cfg=c, init=init,
                                         weather=[a, b, third]))

    def c_special(self, res, t):
        for c, init, ws in space.special():
            self.chain(res, dict(kind='model', cfg=c, init=init, weather=ws))

    def c_deep(self, res, t):
        for c, init, ws in space.deep(space.DEEP[t['cfg']]):
            self.chain(res, dict(kind='model', cfg=c, init=init, weather=ws))

    def c_triples(self, res, t):
        for i, row in enumerate(triples.rows(t['q'])):
            if i % t['of'] == t['part']:
                c, init, ws = triples.history(row)
                self.chain(res, dict(kind='model', cfg=c, init=init,
                                     weather=ws))

    def c_long(self, res, t):
        """a history in which every word of the weather alphabet of the given
        length occurs"""
        al = space.ALPHA
        ws = [al[i] for i in debruijn(len(al), t['order'])]
        self.chain(res, dict(kind='model', cfg=space.CONFIGS[t['cfg']],
                             init=space.key_states()[t['state']], weather=ws))

    def c_gold(self, res, t):
        """a real year of hourly data"""
        ws = space.gold_year(t['year'])
        if ws is None:
            res.out('no gold data')
            return
        self.chain(res, dict(kind='model', cfg=space.CONFIGS[t.get('cfg', 0)],
                             init=space.key_states()[0], weather=ws))

    # ------------------------------------------------ scripted step division
    def scripted(self, res, case):
        """one data step in which the division decisions are ours: every
        question "is a layer below the threshold?" is answered from
        case['script'] (exhausted: no)"""
        c, init, ws = case['cfg'], case['init'], case['weather']
        C = model.constants(c, init)
        sn = model.make(c, init)
        if not hasattr(sn, 'below_thold'):
            res.out('the division cannot be scripted')
            return None
        left = list(case['script'])
        asked = []

        def answer(threshold):
            a = left.pop(0) if left else False
            a = a and sn.snow_state.layer_count > 0
            asked.append(a)
            return a
        sn.below_thold = answer
        pre = model.state(sn)
        err = None
        try:
            recs = model.step(sn, model.record(ws[0]), model.record(ws[1]))
        except Exception as e:
            recs = [model.plain(r) for r in sn.output_list]
            err = e
        steps, pre2, t = model.steps_of(c, C, pre, ws[0], ws[1], recs,
                                        model.T0)
        res.count('histories')
        if not report(res, self.oracle, steps, lambda: case):
            return None
        if err is not None:
            self._stop(res, err, c, C, pre2, steps, ws[0], ws[1],
                       lambda: case)
            return None
        got = sum(s.dt for s in steps)
        if abs(got - c['data_time_step'] * 60) > 1e-6:
            res.bad(case, 'run steps of a data step cover %g s' % got)
            return None
        res.count('paths')
        return asked

    def c_script(self, res, t):
        """every division pattern of one data step: depth first over the
        answers to the threshold questions"""
        c = space.SCRIPT_CONFIGS[t['cfg']]
        states = space.script_states()
        init = states[t['state']]
        for ws in space.WEATHER_PAIRS:
            script = []
            while True:
                case = dict(kind='model', cfg=c, init=init, weather=list(ws),
                            script=list(script))
                asked = self.scripted(res, case)
                if asked is None:
                    break
                res.count('division patterns')
                # next script in depth first order: flip the last no
                while asked and asked[-1]:
                    asked.pop()
                if not asked:
                    break
                script = asked[:-1] + [True]
                if res.violations:
                    return


def debruijn(k, n):
    from .driver import debruijn as d
    return d(k, n)


LONG = [(0, 0), (3, 4), (5, 8), (8, 5), (9, 1), (16, 6), (21, 2), (26, 11)]


def tasks(tier, grid=1, dev=2, seq=3, cfg=True, seq_states=None, dev_thin=1,
          long=3, gold=4, script=False):
    """the standard campaign; the arguments thin it for expensive oracles"""
    out = []
    thorough = tier == 'thorough'
    if thorough:
        grid, dev_thin, seq = 1, 1, max(seq, 4)
        gold = 25 if gold else 0
    for i in range(gold):
        out.append(dict(campaign='gold', year=1984 + (i * 7) % 25))
    if long:
        for c, s in LONG if not thorough else [
                (a, b) for a, _ in LONG for b in range(12)]:
            out.append(dict(campaign='long', cfg=c, state=s,
                            order=long if not thorough else 4))
    if script:
        for c in range(len(space.SCRIPT_CONFIGS)):
            for s in range(len(space.script_states())):
                out.append(dict(campaign='script', cfg=c, state=s))
    if grid:
        of = 24
        out += [dict(campaign='grid', part=i, of=of, thin=grid)
                for i in range(of)]
    if dev:
        for b in range(3):
            of = 4
            out += [dict(campaign='dev', base=b, part=i, of=of, order=dev,
                         thin=dev_thin * (1 if thorough else 3),
                         pairs=3 if thorough else 2) for i in range(of)]
    if cfg:
        out += [dict(campaign='cfg', cfg=i, third=7 if thorough else 3)
                for i in range(len(space.CONFIGS))]
        out.append(dict(campaign='special'))
        out += [dict(campaign='deep', cfg=i) for i in range(len(space.DEEP))]
        of = 192 if thorough else 48
        out += [dict(campaign='triples', q=triples.order(tier), part=i, of=of)
                for i in range(of)]
    if seq:
        st = seq_states or range(len(space.key_states()))
        for s in st:
            for f in range(len(space.ALPHA)):
                out.append(dict(campaign='seq', state=s, first=f,
                                depth=seq))
        if thorough:
            for s in st:
                for k in (3, 5, 6, 9, 13, 15):
                    for f in range(len(space.ALPHA)):
                        out.append(dict(campaign='seq', state=s, first=f,
                                        depth=3, cfg=k))
    return out


def describe(tier, grid=1, dev=2, seq=3, cfg=True, seq_states=None,
             dev_thin=1, long=3, gold=4, script=False):
    th = tier == 'thorough'
    b = {}
    if grid:
        b['grid'] = '%d initial snowpacks x %d weather records%s' % (
            len(space.grid_states()), len(space.archetypes()),
            '' if th or grid == 1 else ', every %d. pair' % grid)
    if dev:
        b['deviations'] = 'every record with at most %d fields changed from 3 '\
            'base records, %d initial snowpacks%s' % (
                dev, len(space.key_states()),
                '' if th else ', every %d. pair' % (3 * dev_thin))
    if cfg:
        b['configurations'] = '%d configurations x %d snowpacks x %d weather '\
            'pairs x %d continuations' % (
                len(space.CONFIGS), len(space.key_states()),
                len(space.WEATHER_PAIRS), 7 if th else 3)
        b['special'] = 'both layers vanishing at once (72 histories); ' \
            'evaporation of all there is (280 histories); steps of 1 and 2 ' \
            'minutes (30 histories); packs of 4 to 14 ' \
            'm under heights above the snow, %d configurations x 504 ' \
            'histories' % len(space.DEEP)
        b['triples'] = triples.describe(tier)
    if seq:
        b['sequences'] = 'all weather sequences of length %d over %d records '\
            'from %s snowpacks' % (
                (max(seq, 4) if th else seq) + 1, len(space.ALPHA),
                len(seq_states or space.key_states()))
    if long:
        b['long histories'] = '%d histories that contain every weather word '\
            'of length %d' % (len(LONG) * (12 if th else 1), 4 if th else long)
    if gold:
        b['real years'] = '%d years of hourly data' % (25 if th else gold)
    if script:
        b['division patterns'] = 'every pattern of undivided, medium and ' \
            'small run steps of a data step, %d step tables, %d snowpacks, ' \
            '%d weather pairs' % (len(space.SCRIPT_CONFIGS),
                                  len(space.script_states()),
                                  len(space.WEATHER_PAIRS))
    return b
