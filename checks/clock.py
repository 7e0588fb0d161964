"""C33: shifting a simulation in time changes the time stamps and nothing else;
where its files lie and what the host's clock is set to change nothing."""
import datetime as dt
import os
import time

from vlib import driver, explore, model, ref, space, whole
from vlib.base import Check
from checks.program import INIT, base_case

F = ref.FREEZE

# the years whose hours are enumerated: a leap year (and, thorough, one that is
# not, a century that is no leap year, and the two ends of the Unix epoch)
YEARS = {'quick': [2000], 'thorough': [2000, 2001, 1900, 1970, 2038]}
MINUTES = (0, 30, 17)


def states():
    k = space.key_states()
    return [(0, k[4]), (5, k[0]), (3, model.pack(.02, 120, F - 2, None, .5)),
            (0, model.pack(.9, 350, F - .3, F - .1, 1)), (8, k[7])]


# three data steps: mixed snow and rain, melt, frost
WORD = (4, 1, 2, 0)


def run_at(c, init, start, word, mode='all'):
    """records of a run that starts there, with its time stamps as seconds
    since the start; or the text of its error"""
    from pysnobal.point import Snobal
    al = space.ALPHA
    sn = Snobal(dict(model.params(c), start_date=start), model.tstep_info(c),
                dict(init), model.heights(c), mode)
    try:
        cur = model.record(al[word[0]])
        for k in word[1:]:
            nxt = model.record(al[k])
            sn.do_data_tstep(cur, nxt)
            cur = nxt
    except Exception as e:
        out = [model.plain(r) for r in sn.output_list]
        out.append({'error': type(e).__name__})
    else:
        out = [model.plain(r) for r in sn.output_list]
    for r in out:
        if 'date_time' in r:
            r['date_time'] = (r['date_time'] - start).total_seconds()
    return out


def differ(a, b):
    if len(a) != len(b):
        return '%d records instead of %d' % (len(b), len(a))
    for x, y in zip(a, b):
        for k in sorted(set(x) | set(y)):
            p, q = x.get(k), y.get(k)
            if p != q and not (p != p and q != q):
                return '%s after %s s is %r, starting at %s it is %r' % (
                    k, x.get('date_time'), q, model.T0, p)
    return None


class Calendar(Check):
    id = 'C33'
    technique = 'exhaustive enumeration of the start hour over a whole leap ' \
        'year, of dates, zones, file places and host settings through the ' \
        'whole program; oracle: the same run elsewhere, value by value'
    assumptions = ['no change between summer and winter time within a run']
    parts = 8

    def years(self, tier):
        return YEARS[tier]

    def bounds(self, tier):
        return {'start of a run of three data steps': 'every hour of %s at '
                'minute 0 (every %s, %d snowpacks), and every sixth hour at '
                'minutes 17 and 30' % (
                    self.years(tier),
                    'hour for one snowpack, every seventh for the others'
                    if tier == 'quick' else 'hour', len(states())),
                'whole program': '%d runs' % len(list(self.cases(tier))),
                'places': 'file names relative and absolute, working '
                          'directory, odd names, host time zone'}

    # ------------------------------------------------------- the point model
    def vt(self, tier):
        return [dict(campaign='hours', tier=tier, year=y, state=s, part=p,
                     of=4)
                for y in self.years(tier) for s in range(len(states()))
                for p in range(4)]

    def starts(self, year, thin):
        t = dt.datetime(year, 1, 1)
        i = 0
        while t.year == year:
            if i % thin == 0:
                yield t
            if i % (6 * thin) == 0:
                for m in MINUTES[1:]:
                    yield t + dt.timedelta(minutes=m)
            t += dt.timedelta(hours=1)
            i += 1

    def t_hours(self, res, t):
        j, init = states()[t['state']]
        thin = 7 if t['tier'] == 'quick' and t['state'] else 1
        c = space.CONFIGS[j]
        want = {}
        for i, st in enumerate(self.starts(t['year'], thin)):
            if i % t['of'] != t['part']:
                continue
            mode = 'normal' if i // t['of'] % 2 else 'all'
            if mode not in want:
                want[mode] = run_at(c, init, model.T0, WORD, mode)
            m = differ(want[mode], run_at(c, init, st, WORD, mode))
            res.count('transitions', len(want[mode]))
            res.count('paths')
            res.states.add(hash((t['state'], st)))
            if m:
                res.bad(dict(kind='hour', state=t['state'], mode=mode,
                             start=st.strftime('%Y-%m-%d %H:%M')), m)
                return

    def r_hour(self, case):
        j, init = states()[case['state']]
        c = space.CONFIGS[j]
        a = run_at(c, init, model.T0, WORD, case['mode'])
        b = run_at(c, init, whole.when(case['start']), WORD, case['mode'])
        m = differ(a, b)
        return [m] if m else []

    # ----------------------------------------------------- the whole program
    def pp(self, tier):
        return [dict(campaign='program', tier=tier, part=i, of=self.parts)
                for i in range(self.parts)]

    def dates(self, tier):
        out = []
        for y in (1962, 2000) if tier == 'quick' else (
                1936, 1962, 1972, 1999, 2000, 2004, 2037, 2100):
            out.append(dt.datetime(y, 12, 31, 21, 30))
            out.append(dt.datetime(y, 12, 30, 23, 30))
            for mo in range(1, 13):
                out.append(dt.datetime(y, mo, 1) - dt.timedelta(minutes=150))
                out.append(dt.datetime(y, mo, 15, (5 * mo) % 24, (7 * mo) % 60))
        for h in range(24):
            out.append(dt.datetime(2000, 2, 28 + h % 2, h))
        return out

    def cases(self, tier):
        bases = [dict(), dict(mode='normal'), dict(init=dict(INIT, z_s=.02)),
                 dict(init=dict(INIT, z_s=0., rho=0.), mode='normal')]
        for i, t in enumerate(self.dates(tier)):
            for j, b in enumerate(bases):
                if tier == 'quick' and (i + j) % 2:
                    continue
                yield dict(base_case(**b), kind='shift',
                           start=t.strftime('%Y-%m-%d %H:%M'))
        for j, b in enumerate(bases):
            for tz in ('Etc/GMT+12', 'Etc/GMT-14', 'America/Denver',
                       'Asia/Kathmandu', 'Australia/Adelaide', 'US/Pacific',
                       'America/St_Johns', 'Pacific/Chatham'):
                for st in ('2000-01-12 21:00', '2000-07-12 06:30'):
                    yield dict(base_case(**b), kind='shift', tz=tz, start=st)
        for j, b in enumerate(bases):
            for p in PLACES:
                yield dict(base_case(**b), kind='place', place=p)
            for z in ('America/Denver', 'Asia/Tokyo', 'EST5EDT', 'UTC+11:30'):
                yield dict(base_case(**b), kind='host', hosttz=z)
                yield dict(base_case(**b), kind='host', hosttz=z,
                           tz='America/Denver')

    def t_program(self, res, t):
        for i, case in enumerate(self.cases(t['tier'])):
            if i % t['of'] != t['part']:
                continue
            m = self.judge(case)
            res.count('transitions')
            res.count('paths')
            res.count('whole program runs')
            res.states.add(explore.digest(sorted(case.items(), key=str)))
            if len(res.samples) < 1:
                res.samples.append(case)
            if m:
                res.bad(case, m)
                return

    def judge(self, case):
        plain = dict((k, v) for k, v in case.items() if k in (
            'cfg', 'init', 'weather', 'mode', 'fmt'))
        key = repr(sorted(plain.items(), key=str))
        if key not in WANT:
            WANT[key] = driver.run(dict(plain, kind='whole'))[:2]
        cols, rows = WANT[key]
        try:
            ocols, orows = getattr(self, 'do_' + case['kind'])(case)
        except Exception as e:
            return 'the run stops with %s: %s' % (type(e).__name__, e)
        except SystemExit:
            return 'the program exits'
        if cols != ocols:
            return 'the columns differ'
        if len(rows) != len(orows):
            return '%d records instead of %d' % (len(orows), len(rows))
        t0 = whole.when(case.get('start', '2000-01-01 00:00'))
        for (ta, a), (tb, b) in zip(rows, orows):
            da = driver.parse_time(ta).replace(tzinfo=None) - model.T0
            db = driver.parse_time(tb).replace(tzinfo=None) - t0
            if da != db:
                return 'record at %s is %s after the start, not %s' % (
                    tb, db, da)
            for k, x, y in zip(cols[1:], a, b):
                if float(x) != float(y):
                    return '%s at %s is %s, elsewhere %s' % (k, tb, y, x)
        return None

    def replay_one(self, case):
        m = self.judge(case)
        return [m] if m else []

    r_shift = r_place = r_host = replay_one

    def do_shift(self, case):
        return driver.run(case)[:2]

    def do_host(self, case):
        old = os.environ.get('TZ')
        try:
            os.environ['TZ'] = case['hosttz']
            time.tzset()
            return driver.run(case)[:2]
        finally:
            if old is None:
                del os.environ['TZ']
            else:
                os.environ['TZ'] = old
            time.tzset()

    def do_place(self, case):
        from pysnobal.pysnobal import PySnobal
        conf, inp, out, cwd = case['place']
        here = os.getcwd()
        with driver.Scratch() as d:
            d = os.path.join(d, 'x')
            secs = driver.sections(case, d)
            where = {}
            for k, v in (('input_csv', inp), ('output_csv', out)):
                v = v.replace('@', d)
                secs['files'][k] = v
                # a relative name is relative to the configuration file
                where[k] = os.path.normpath(os.path.join(
                    d, os.path.dirname(conf), v))
                os.makedirs(os.path.dirname(where[k]), exist_ok=True)
            p = os.path.join(d, conf)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            os.makedirs(os.path.join(d, cwd), exist_ok=True)
            driver.write_csv(where['input_csv'], driver.table(case))
            driver.write_ini(p, secs)
            os.chdir(os.path.join(d, cwd))
            try:
                PySnobal(p if case['place'][3] != 'conf'
                         else os.path.relpath(p)).run()
            finally:
                os.chdir(here)
            return driver.read_out(where['output_csv'])


# (configuration file, input, output, working directory); @ is the root
PLACES = [
    ('c.ini', '@/in.csv', '@/out.csv', '.'),
    ('c.ini', 'in.csv', 'out.csv', '.'),
    ('c.ini', 'in.csv', 'out.csv', 'elsewhere'),
    ('conf/c.ini', '../data/in.csv', '../res/out.csv', '.'),
    ('conf/c.ini', '../data/in.csv', '../res/out.csv', 'conf'),
    ('conf/c.ini', 'in.csv', 'out.csv', 'conf'),
    ('conf/c.ini', '@/data/in.csv', 'deeper/out.csv', 'data'),
    ('a b/run.cfg', '@/my data/winter 1.csv', '@/my data/result', '.'),
    ('r.ini', 'forcing.txt', 'snow.out.csv', '.'),
    ('r.ini', 'forcing', 'forcing.out', 'res'),
]
WANT = {}
CHECKS = [Calendar()]
