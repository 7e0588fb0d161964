"""What a check is."""
from . import driver, env, explore, harness, model, oracles, space


class Check(object):
    id = ''
    assumptions = []

    def vt(self, tier):
        """tasks explored in CPython"""
        return []

    def pp(self, tier):
        """tasks explored in PyPy (whole program)"""
        return []

    def bounds(self, tier):
        return {}

    def run(self, task):
        res = explore.Result()
        getattr(self, 't_' + task['campaign'])(res, task)
        return res

    def replay(self, case):
        """messages for the violations of one case"""
        if case['kind'] == 'task':
            try:
                r = self.run(case['task'])
            except harness.TaskTimeout:
                raise
            except Exception as e:
                import sys
                if env.from_repo(sys.exc_info()[2]):
                    return ['%s: %s' % (type(e).__name__, e)]
                raise
            return [m for _, m in r.violations]
        return getattr(self, 'r_' + case['kind'])(case)


# histories for whole-program runs: every ordered pair (triple) of the weather
# alphabet occurs
def history(order):
    al = space.ALPHA
    return [al[i] for i in driver.debruijn(len(al), order)]


E2E = [  # (configuration, initial state)
    (0, 0), (0, 4), (5, 5), (3, 2), (25, 6), (10, 3), (8, 7), (6, 1), (14, 5),
    (20, 0), (11, 4), (17, 9),
]


class Physics(Check):
    """an oracle on every run step, over the standard campaigns"""
    thin = {}
    e2e = 3
    gold = True

    def __init__(self, id, oracle, data_oracle=None, stop=None, thin=None,
                 assumptions=(), extra=None):
        self.id = id
        self.oracle = oracle or (lambda s: None)
        self.runner = explore.Runner(oracle, data_oracle, stop)
        self.thin = thin or {}
        self.assumptions = list(assumptions)
        self.extra = extra          # additional mixin-like object

    def bounds(self, tier):
        b = explore.describe(tier, **self.thin)
        b['whole program'] = self._pp_text(tier)
        if self.extra:
            b.update(self.extra.bounds(tier))
        return b

    def _pp_text(self, tier):
        n = self.e2e if tier == 'quick' else len(E2E)
        return '%d configurations/initial states, weather history with every' \
            ' ordered %s of the 7-letter alphabet, through ini file and CSV' % (
                n, 'pair' if tier == 'quick' else 'triple')

    def vt(self, tier):
        t = explore.tasks(tier, **self.thin)
        if self.extra:
            t += self.extra.vt(tier)
        return t

    def pp(self, tier):
        n = self.e2e if tier == 'quick' else len(E2E)
        t = [dict(campaign='driver', cfg=c, state=s,
                  order=2 if tier == 'quick' else 3) for c, s in E2E[:n]]
        if self.extra:
            t += self.extra.pp(tier)
        return t

    def run(self, task):
        c = task['campaign']
        if self.extra and hasattr(self.extra, 't_' + c):
            res = explore.Result()
            getattr(self.extra, 't_' + c)(res, task)
            return res
        if hasattr(self, 't_' + c):
            return Check.run(self, task)
        return self.runner.run(task)

    def replay(self, case):
        if self.extra and hasattr(self.extra, 'r_' + case['kind']):
            return getattr(self.extra, 'r_' + case['kind'])(case)
        return Check.replay(self, case)

    def r_model(self, case):
        return self.runner.evaluate(case, harness.findings(self.id))

    # ------------------------------------------------ through the whole program
    def t_driver(self, res, task):
        case = dict(kind='driver', cfg=space.CONFIGS[task['cfg']],
                    init=driver_init(space.key_states()[task['state']]),
                    weather=history(task['order']))
        self.drive(res, case)

    def drive(self, res, case):
        try:
            cols, rows, _ = driver.run(case)
        except Exception as e:
            why = driver.refused(case, e)
            if why:
                res.out('flux iteration did not converge' if why == 'noconv'
                        else 'snow reaches the instruments')
                return
            res.bad(case, 'valid input, but the run stops with %s: %s' % (
                type(e).__name__, e))
            return
        data, rest = driver.as_steps(case, cols, rows)
        res.count('paths')
        res.count('whole program runs')
        if rest:
            res.bad(case, 'records after the end of the data: %s' %
                    rest[0]['date_time'])
            return
        for steps in data:
            if not explore.report(res, self.oracle, steps, lambda: case):
                return
            if not self.runner._data(res, case['cfg'], steps, lambda: case):
                return
        res.samples.append(dict(case, weather='%d records' % len(
            case['weather'])))

    def r_driver(self, case):
        res = explore.Result()
        self.drive(res, case)
        kn = harness.findings(self.id)
        return [m for _, m in res.violations] + [
            v[0] for k, v in res.known.items() if k not in kn]


def driver_init(init):
    """the driver has no option for the lower layer's temperature"""
    i = dict(init)
    if 't_s_l' in i and i['z_s'] > 0:
        i['t_s_l'] = i['t_s']
    return i


__all__ = ['Check', 'Physics', 'oracles', 'space', 'model']
