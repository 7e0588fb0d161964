"""C23 determinism and independence, C24 cached derived quantities."""
import copy
import itertools
import os
import pickle
import subprocess
import sys

from vlib import driver, env, explore, model, ref, space, triples, whole
from vlib.base import Check, driver_init

F = ref.FREEZE
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ---------------------------------------------------------------------- C24
class Machine(object):
    """one object under every sequence of operations: breadth first over all
    reachable states of the real object"""
    LIMIT = 150000

    def start(self):
        raise NotImplementedError

    # operations: (name, enabled(obj), function(obj) -> message or None)
    def ops(self):
        raise NotImplementedError

    def public(self, o):
        """what an observer of the raw quantities sees"""
        raise NotImplementedError

    def key(self, o):
        return tuple(sorted((k, repr(v)) for k, v in vars(o).items()))

    def path(self, seen, k):
        out = []
        while seen[k] is not None:
            k, op = seen[k]
            out.append(op)
        return out[::-1]

    def explore(self, res, case):
        ops = self.ops()
        o = self.start()
        k0 = self.key(o)
        seen = {k0: None}
        front = [(k0, o)]
        depth = 0
        while front:
            nxt = []
            for k, o in front:
                for name, enabled, f in ops:
                    if not enabled(o):
                        continue
                    o2 = copy.deepcopy(o)
                    m = f(o2)
                    res.count('transitions')
                    res.count('paths')
                    if m:
                        res.bad(dict(case, word=self.path(seen, k) + [name]),
                                m)
                        return
                    k2 = self.key(o2)
                    if k2 not in seen:
                        seen[k2] = (k, name)
                        nxt.append((k2, o2))
                        res.states.add(explore.digest(k2))
                if len(seen) > self.LIMIT:
                    res.out('%s: state limit reached at depth %d' % (
                        case['machine'], depth))
                    return
            front = nxt
            depth += 1
        res.out('%s: every reachable state, %d operations deep' % (
            case['machine'], depth))

    def follow(self, word):
        ops = dict((n, (e, f)) for n, e, f in self.ops())
        o = self.start()
        for n in word:
            e, f = ops[n]
            if not e(o):
                return None
            m = f(o)
            if m:
                return 'after %s: %s' % (', '.join(word), m)
        return None


def put(name, v):
    def f(o):
        setattr(o, name, v)
    return ('%s = %r' % (name, v), lambda o: True, f)


def add(name, d, into):
    """increments stay within a finite set of values"""
    def f(o):
        setattr(o, name, getattr(o, name) + d)
    return ('%s += %r' % (name, d),
            lambda o: getattr(o, name) + d in into, f)


class Layers(Machine):
    """a snow state: temperatures"""
    TEMPS = (252.25, 271.25, 272.25, 272.25 + 2. ** -20, 272.25 + 2. ** -10,
             F)

    def start(self):
        from pysnobal.point import SnowState
        s = SnowState(max_z_s_0=.25, small_threshold=1)
        s.t_s_0 = 271.25
        s.t_s_l = 252.25
        return s

    def public(self, o):
        return (o.t_s_0, o.t_s_l, o.z_s_0, o.z_s_l, o.z_s, o.m_s, o.rho)

    def reading(self, prop, want, can):
        def f(o):
            before = self.public(o)
            v = getattr(o, prop)
            if not abs(float(v) - want(o)) <= 1e-9 * abs(want(o)):
                return '%s reads %r, the current values give %r' % (
                    prop, v, want(o))
            if self.public(o) != before:
                return 'reading %s changes %s into %s' % (
                    prop, before, self.public(o))
            w = getattr(o, prop)
            if w != v:
                return '%s reads %r and then %r' % (prop, v, w)
            return None
        return ('read ' + prop, can, f)

    def ops(self):
        out = []
        for n in ('t_s_0', 't_s_l'):
            out += [put(n, t) for t in self.TEMPS]
            for d in (1., 2. ** -20, 2. ** -10, -2. ** -10):
                out.append(add(n, d, self.TEMPS))
            out.append(('zero ' + n, lambda o: True,
                        lambda o, n=n: o.set_zeros(n)))
            out.append(self.reading(
                'e_s' + n[3:], lambda o, n=n: ref.sati(getattr(o, n)),
                lambda o, n=n: getattr(o, n) > 0))
        out.append(('set both', lambda o: True, lambda o: o.set_from_dict(
            dict(t_s_0=272.25, t_s_l=271.25))))
        out.append(('swap', lambda o: True, self.swap))
        return out

    @staticmethod
    def swap(o):
        o.t_s_0, o.t_s_l = o.t_s_l, o.t_s_0


class Depths(Layers):
    """a snow state: layers"""

    def ops(self):
        out = []
        for n in ('z_s_0', 'z_s_l'):
            out += [put(n, z) for z in (0, .25, .5)]
            out.append(add(n, .25, (0., .25, .5)))
        out.append(('zero layers', lambda o: True,
                    lambda o: o.set_zeros(['z_s_0', 'z_s_l'])))
        out.append(('zero lower', lambda o: True,
                    lambda o: o.set_zeros('z_s_l')))
        out.append(('set both', lambda o: True, lambda o: o.set_from_dict(
            dict(z_s_0=.25, z_s_l=.5))))
        out.append(('set surface', lambda o: True, lambda o: o.set_from_dict(
            dict(z_s_0=.125, z_s_l=0))))
        for z, rho in ((0., 0.), (.001, 300.), (.2, 300.), (.25, 300.),
                       (.251, 300.), (.75, 300.)):
            out.append(('layers of %g m' % z, lambda o: True,
                        lambda o, z=z, rho=rho: self.relayer(o, z, rho)))
        count = lambda o: int(o.z_s_0 > 0) + int(o.z_s_l > 0)  # noqa: E731
        yes = lambda o: True                                   # noqa: E731
        out.append(self.reading('layer_count', count, yes))
        out.append(self.reading('snowcover', lambda o: count(o) > 0, yes))
        return out

    def relayer(self, o, z, rho):
        from pysnobal.point import SnowState
        o.z_s, o.rho, o.m_s = z, rho, z * rho
        o.calc_layers()
        fresh = SnowState(max_z_s_0=.25, small_threshold=1)
        fresh.z_s, fresh.rho, fresh.m_s = z, rho, z * rho
        fresh.calc_layers()
        a = (o.z_s, o.z_s_0, o.z_s_l)
        b = (fresh.z_s, fresh.z_s_0, fresh.z_s_l)
        if a != b:
            return 'layers of %g m: %r, for a new object %r' % (z, a, b)
        return None


class Whole(Depths):
    """a snow state: both together, and the model's own temperature update"""
    TEMPS = (272.25, F)

    def ops(self):
        t = [x for x in Layers.ops(self) if not x[0].startswith(
            ('zero t', 't_s_l', 'swap', 't_s_0 +='))]
        z = [x for x in Depths.ops(self) if not x[0].startswith(
            ('z_s_0 +=', 'z_s_l +=', 'set ', 'z_s_0 = 0.5', 'z_s_l = 0.25',
             'layers of 0', 'zero lower'))]

        def temps(o):
            o.m_s_0, o.m_s_l, o.m_s = 40., 90., 130.
            o.cc_s_0, o.cc_s_l = -4e5, -2e5
            o.t_s_0 = o.t_s_l = o.t_s = 271.25
            o.adjust_layer_temps()

        def thaw(o):
            o.m_s_0, o.m_s_l, o.m_s = 40., 90., 130.
            o.cc_s_0 = o.cc_s_l = 0.
            o.adjust_layer_temps()
        return t + z + [('new temperatures', lambda o: True, temps),
                        ('thaw', lambda o: True, thaw)]


class Air(Machine):
    """an input record"""
    TEMPS = (272.25, 273.25, 273.25 + 2. ** -20, 273.25 + 2. ** -10,
             274.25, F)

    def start(self):
        return model.record(dict(
            model.weather(m_pp=2., ps=.5), t_a=272.25, t_g=273.25))

    def public(self, o):
        return (o.t_a, o.t_g, o.e_a, o.u, o.S_n, o.I_lw, o.m_pp, o.m_rain,
                o.t_pp)

    reading = Layers.__dict__['reading']

    def delta(self, ta, tg):
        from pysnobal.point import InputData
        w = dict(model.weather())
        for k in w:
            w[k] = 0.
        return InputData(dict(w, t_a=ta, t_g=tg), True)

    def ops(self):
        out = []
        for n in ('t_a', 't_g'):
            out += [put(n, t) for t in self.TEMPS]
            for d in (1., 2. ** -20, 2. ** -10, -2. ** -10):
                out.append(add(n, d, self.TEMPS))
        for a, g in ((1., 0.), (0., 1.), (-1., -1.), (2. ** -20, 0.),
                     (0., 2. ** -20), (2. ** -10, -2. ** -10),
                     (-2. ** -10, 2. ** -10)):
            out.append(('add deltas %g %g' % (a, g),
                        lambda o, a=a, g=g: o.t_a + a in self.TEMPS and
                        o.t_g + g in self.TEMPS,
                        lambda o, a=a, g=g: o.add_deltas(self.delta(a, g))))
        out.append(('precipitation deltas', lambda o: True,
                    lambda o: o.update_precip_deltas(self.delta(0., 0.))))
        yes = lambda o: True                                   # noqa: E731
        out.append(self.reading('sat_vp', lambda o: ref.sati(o.t_a), yes))
        out.append(self.reading('e_g', lambda o: ref.sati(o.t_g), yes))
        return out


MACHINES = dict(temperatures=Layers(), depths=Depths(), snow=Whole(),
                air=Air())


class Caches(Check):
    id = 'C24'
    technique = 'explicit-state search over all reachable states of the real ' \
        'cached objects under every operation sequence, plus every weather ' \
        'word through the model with all derived quantities compared after ' \
        'each data step'
    assumptions = ['a finite set of values per quantity; any sequence length']

    def bounds(self, tier):
        return {'objects': 'snow state (temperatures, depths, together) and '
                'input record: all reachable states',
                'model': 'every weather word of length %d from %d snowpacks, '
                '3 configurations' % (self.depth(tier) + 1,
                                      len(space.key_states()))}

    def depth(self, tier):
        return 2 if tier == 'quick' else 4

    def vt(self, tier):
        return [dict(campaign='machine', name=n) for n in sorted(MACHINES)] + \
            [dict(campaign='words', state=s, cfg=c, depth=self.depth(tier))
             for s in range(len(space.key_states())) for c in (0, 6, 13)]

    def pp(self, tier):
        return [dict(campaign='machine', name='temperatures')]

    def t_machine(self, res, t):
        MACHINES[t['name']].explore(res, dict(kind='word', machine=t['name']))

    def r_word(self, case):
        m = MACHINES[case['machine']].follow(case['word'])
        return [m] if m else []

    def t_words(self, res, t):
        c = space.CONFIGS[t['cfg']]
        init = space.key_states()[t['state']]
        al = space.ALPHA
        done = set()
        for word in itertools.product(range(len(al)), repeat=t['depth'] + 1):
            m, n = self.walk(c, init, word, res, done)
            if m:
                res.bad(dict(kind='walk', cfg=c, init=init,
                             word=list(word[:n])), m)
                return

    def walk(self, c, init, word, res=None, done=None):
        al = space.ALPHA
        sn = model.make(c, init)
        m = self.derived(sn, None)
        if m:
            return m, 1
        cur = model.record(al[word[0]])
        for k in range(len(word) - 1):
            nxt = model.record(al[word[k + 1]])
            try:
                sn.do_data_tstep(cur, nxt)
            except Exception:
                if res:
                    res.out('flux iteration did not converge')
                return None, 0
            if done is None or word[:k + 2] not in done:
                if done is not None:
                    done.add(word[:k + 2])
                m = self.derived(sn, cur)
                if m:
                    return 'after %d data steps: %s' % (k + 1, m), k + 2
                if res:
                    res.count('transitions')
                    res.states.add(explore.digest(
                        (round(sn.snow_state.t_s_0, 6),
                         round(sn.snow_state.z_s, 8))))
            del sn.output_list[:]
            cur = nxt
        if res:
            res.count('paths')
        return None, 0

    def derived(self, sn, cur):
        """derived quantities after a data step, on copies so that the reads
        do not influence the run"""
        s, = model.fork(sn.snow_state)
        want = [('layer_count', int(s.z_s_0 > 0) + int(s.z_s_l > 0)),
                ('snowcover', s.z_s_0 > 0 or s.z_s_l > 0)]
        for a, b in (('e_s_0', 't_s_0'), ('e_s_l', 't_s_l')):
            if getattr(s, b) > 0:
                want.append((a, ref.sati(getattr(s, b))))
        objs = [(s, want)]
        if cur is not None:
            i, = model.fork(cur)
            objs.append((i, [('sat_vp', ref.sati(i.t_a)),
                             ('e_g', ref.sati(i.t_g))]))
        for o, want in objs:
            for k, v in want:
                if not hasattr(o, k):
                    continue
                x = float(getattr(o, k))
                if not abs(x - v) <= 1e-9 * abs(v):
                    return '%s is %r, the current values give %r' % (k, x, v)
        return None

    def r_walk(self, case):
        m, _ = self.walk(case['cfg'], case['init'], case['word'])
        return [m] if m else []


# ---------------------------------------------------------------------- C23
def interleavings(counts):
    """all orders of the events of processes with counts[i] events"""
    if not any(counts):
        yield ()
        return
    for i, n in enumerate(counts):
        if n:
            rest = list(counts)
            rest[i] -= 1
            for w in interleavings(rest):
                yield (i,) + w


SITES = [  # (configuration, initial snowpack, first weather letter)
    (0, 6, 0), (25, 5, 1), (6, 3, 2), (20, 0, 3), (9, 4, 4), (13, 10, 2),
    (17, 2, 1), (5, 7, 5), (0, 0, 0), (10, 1, 2), (6, 0, 1)]
# sites that differ from each other in a single option, with equal weather
TWINS = [(c, 6, 1) for c in (0, 1, 5, 6, 9, 13, 14, 16, 19, 20, 22, 25, 27,
                             29)]
TWINS += [(0, 3, 1), (0, 5, 1), (19, 5, 1), (20, 3, 1)]
FIRST_TWIN = len(SITES)
SITES = SITES + TWINS
MAIN = range(FIRST_TWIN)


class Zygote(object):
    """a process that never runs a simulation itself, each one asked for runs
    in a new copy of it"""
    CODE = '''
import os, pickle, sys
sys.path.insert(0, %r)
from checks import objects
import pysnobal.point
back = os.fdopen(os.dup(1), 'wb')
null = os.open(os.devnull, os.O_WRONLY)
os.dup2(null, 1)
os.dup2(null, 2)
for line in sys.stdin:
    i, n, mode = line.split()
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        s = objects.Site(int(i), int(n), mode)
        for _ in range(int(n) + 1):
            s.event()
        with os.fdopen(w, 'wb') as f:
            pickle.dump(s.out, f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    back.write(b'%%d\\n' %% len(data) + data)
    back.flush()
'''
    proc = None

    @classmethod
    def ask(cls, i, n, mode):
        if cls.proc is None or cls.pid != os.getpid():
            cls.pid = os.getpid()
            cls.cache = {}
            cls.proc = subprocess.Popen(
                [sys.executable, '-W', 'ignore', '-c', cls.CODE % VERIF],
                stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        k = (i, n, mode)
        if k not in cls.cache:
            cls.proc.stdin.write(b'%d %d %s\n' % (i, n, mode.encode()))
            cls.proc.stdin.flush()
            size = int(cls.proc.stdout.readline())
            cls.cache[k] = pickle.loads(cls.proc.stdout.read(size))
        return cls.cache[k]


class Site(object):
    """one simulation whose events are: construct, data step, data step .."""

    def __init__(self, i, n, mode='all', shared=None):
        c, s, w = SITES[i]
        self.c, self.init = space.CONFIGS[c], space.key_states()[s]
        self.ws = whole.short_history(n + 1, w)
        self.mode = mode
        self.args = shared
        self.k = 0
        self.out = []
        self.dead = None

    def event(self):
        from pysnobal.point import Snobal
        if self.dead:
            return
        try:
            if self.k == 0:
                if self.args is None:
                    self.args = (model.params(self.c),
                                 model.tstep_info(self.c),
                                 dict(self.init), model.heights(self.c))
                self.before = copy.deepcopy(self.args)
                self.sn = Snobal(*self.args + (self.mode,))
                self.cur = model.record(self.ws[0])
            else:
                w = dict(self.ws[self.k])
                nxt = model.record(w)
                self.out += model.step(self.sn, self.cur, nxt)
                self.cur = nxt
        except Exception as e:
            self.dead = '%s' % type(e).__name__
            self.out.append(self.dead)
        self.k += 1

    def changed(self):
        for name, a, b in zip(('parameters', 'time steps', 'initial snow',
                               'heights'), self.before, self.args):
            if a != b:
                return 'the run changed its %s from %r to %r' % (name, a, b)
        return None


def many(q, part, of, back):
    """[(row number, text of the records or of the error, what the run changed
    of its arguments)] of every of-th history of the array, one after another
    in this process, in either direction"""
    from pysnobal.point import Snobal
    rows = [(i, r) for i, r in enumerate(triples.rows(q)) if i % of == part]
    out = []
    for i, row in rows[::-1] if back else rows:
        c, init, ws = triples.history(row)
        args = (model.params(c), model.tstep_info(c), dict(init),
                model.heights(c))
        before = copy.deepcopy(args)
        recs = []
        try:
            sn = Snobal(*args + (('all', 'normal')[i // of % 2],))
            cur = model.record(ws[0])
            for w in ws[1:]:
                nxt = model.record(w)
                recs += model.step(sn, cur, nxt)
                cur = nxt
        except Exception as e:
            recs.append(type(e).__name__)
        changed = ['%s from %r to %r' % x for x in zip(
            ('parameters', 'time steps', 'initial snow', 'heights'), before,
            args) if x[1] != x[2]]
        out.append((i, explore.digest(recs), len(recs),
                    changed[0] if changed else ''))
    return out[::-1] if back else out


MANY = '''
import pickle, os, sys
sys.path.insert(0, %r)
back = os.fdopen(os.dup(1), 'wb')
null = os.open(os.devnull, os.O_WRONLY)
os.dup2(null, 1)
from checks import objects
back.write(pickle.dumps(objects.many(%r, %r, %r, %r)))
back.close()
'''


class Determinism(Check):
    id = 'C23'
    technique = 'all interleavings of the data steps of several simulations ' \
        'of the real model, and all orders of constructing, running and ' \
        'running again of whole programs, against each one alone in a new ' \
        'process'
    assumptions = ['simulations of one process are interleaved at data step '
                   'boundaries, not in threads']
    TRIPLES = [(0, 1, 2), (3, 0, 4), (5, 6, 7)]

    def bounds(self, tier):
        q = tier == 'quick'
        return {'pairs': 'all interleavings of two simulations with %d data '
                'steps each, every ordered pair of %d sites and the same site '
                'twice with shared arguments, against each one alone in a new '
                'process' % (self.n(tier), FIRST_TWIN),
                'twins': 'all interleavings of sites that differ in one '
                'option or the snow only (%d sites%s)' % (
                    len(TWINS), ', each with the first' if q else ', all '
                    'pairs'),
                'one after another': '%d histories that contain every '
                'combination of any three factors, forwards in one process '
                'and backwards in another; arguments compared' % (
                    self.q(tier) ** 4),
                'triples': 'all interleavings of three simulations with %d '
                'data steps' % (1 if q else 2),
                'whole program': 'all orders of construct, run, run again of '
                'two simulations; the same configuration object used twice; '
                'inputs compared before and after'}

    def n(self, tier):
        return 3 if tier == 'quick' else 5

    def vt(self, tier):
        out = []
        for i in MAIN:
            for j in range(i, FIRST_TWIN):
                for mode in ('all', 'normal'):
                    out.append(dict(campaign='orders', sites=[i, j], mode=mode,
                                    n=self.n(tier)))
        for i in range(FIRST_TWIN, len(SITES)):
            for j in range(i + 1, len(SITES)):
                if i == FIRST_TWIN or tier == 'thorough':
                    out.append(dict(campaign='orders', sites=[i, j],
                                    mode='all', n=3))
        for t in self.TRIPLES:
            out.append(dict(campaign='orders', sites=list(t), mode='normal',
                            n=1 if tier == 'quick' else 2))
        of = 16
        return out + [dict(campaign='turns', q=self.q(tier), part=i, of=of)
                      for i in range(of)]

    def q(self, tier):
        return 7 if tier == 'quick' else 11

    def t_turns(self, res, t):
        ps = [subprocess.Popen(
            [sys.executable, '-W', 'ignore', '-c', MANY % (
                VERIF, t['q'], t['part'], t['of'], back)],
            stdout=subprocess.PIPE) for back in (False, True)]
        a, b = [pickle.loads(p.communicate()[0]) for p in ps]
        for x, y in zip(a, b):
            res.count('transitions', x[2])
            res.count('paths')
            res.states.add(x[1])
            m = None
            if x[3] or y[3]:
                m = 'history %d changed its %s' % (x[0], x[3] or y[3])
            elif x != y:
                m = 'history %d gives other records when it runs after ' \
                    'histories %d, .. than after %d, ..' % (
                        x[0], x[0] - t['of'], x[0] + t['of'])
            if m:
                res.bad(dict(kind='task', task=t), m)
                return

    def pp(self, tier):
        n = (0, 2, 8) if tier == 'quick' else MAIN
        return [dict(campaign='programs', a=i, b=(i + k) % FIRST_TWIN)
                for i in n
                for k in ((1,) if tier == 'quick' else MAIN)] + \
            [dict(campaign='programs', a=FIRST_TWIN, b=FIRST_TWIN + k)
             for k in (8, 10)] + \
            [dict(campaign='again', a=i) for i in n] + \
            [dict(campaign='process', a=i) for i in n]

    def t_orders(self, res, t):
        n, sites = t['n'], t['sites']
        alone = [self.alone(i, n, t['mode']) for i in sites]
        for order in interleavings([n + 1] * len(sites)):
            case = dict(kind='order', sites=sites, n=n, mode=t['mode'],
                        order=list(order))
            res.count('schedules')
            m = self.interleave(case, alone, res)
            if m:
                res.bad(case, m)
                return

    def alone(self, i, n, mode):
        return Zygote.ask(i, n, mode)

    def interleave(self, case, alone, res=None):
        sites = case['sites']
        shared = None
        if len(set(sites)) == 1:
            c = space.CONFIGS[SITES[sites[0]][0]]
            shared = (model.params(c), model.tstep_info(c),
                      dict(space.key_states()[SITES[sites[0]][1]]),
                      model.heights(c))
        ss = [Site(i, case['n'], case['mode'], shared) for i in sites]
        for i in case['order']:
            ss[i].event()
        for i, s in enumerate(ss):
            if res:
                res.count('transitions', case['n'])
                res.states.add(explore.digest((
                    case['sites'][i], s.out and str(s.out[-1]))))
            if s.out != alone[i]:
                k = next((k for k, (a, b) in enumerate(zip(s.out, alone[i]))
                          if a != b), min(len(s.out), len(alone[i])))
                a, b = (x[k] if k < len(x) else None
                        for x in (s.out, alone[i]))
                if isinstance(a, dict) and isinstance(b, dict):
                    f = next(f for f in b if a.get(f) != b[f])
                    a, b = '%s = %r' % (f, a.get(f)), repr(b[f])
                return 'site %d, record %d in the order %s: %s, alone: %s' % (
                    sites[i], k, case['order'], a, b)
            m = s.changed() if s.k else None
            if m:
                return m
        if res:
            res.count('paths')
        return None

    def r_order(self, case):
        alone = [self.alone(i, case['n'], case['mode'])
                 for i in case['sites']]
        m = self.interleave(case, alone)
        return [m] if m else []

    # ------------------------------------------------------------ programs
    def program(self, i, mode):
        c, s, w = SITES[i]
        return dict(kind='whole', cfg=space.CONFIGS[c],
                    init=driver_init(space.key_states()[s]),
                    weather=whole.short_history(5, w), mode=mode)

    def t_programs(self, res, t):
        cases = [self.program(t['a'], 'normal'), self.program(t['b'], 'all')]
        self.judge(res, dict(kind='programs', cases=cases))

    def judge(self, res, case):
        """all interleavings of construct, run, run for two programs"""
        from pysnobal.pysnobal import PySnobal
        cases = case['cases']
        with driver.Scratch() as d:
            dirs, want = [], []
            for k, c in enumerate(cases):
                p = os.path.join(d, str(k))
                os.mkdir(p)
                ini = driver.prepare(c, p)
                dirs.append((p, ini, content(p)))
                m = elsewhere(ini, p)
                if m:
                    if 'converge' in m:
                        res.out('flux iteration did not converge')
                    else:
                        res.bad(case, 'valid input, but ' + m)
                    return
                want.append(text(os.path.join(p, 'out.csv')))
            for order in interleavings([3, 3]):
                if case.get('order') and list(order) != case['order']:
                    continue
                objs = [None, None]
                snaps = [None, None]
                for i in order:
                    p, ini, files = dirs[i]
                    out = os.path.join(p, 'out.csv')
                    if objs[i] is None:
                        if os.path.exists(out):
                            os.unlink(out)
                        objs[i] = PySnobal(ini)
                        snaps[i] = snapshot(objs[i])
                        continue
                    if os.path.exists(out):
                        os.unlink(out)
                    objs[i].run()
                    m = None
                    if text(out) != want[i]:
                        m = 'program %d in the order %s: %s' % (
                            i, list(order), difference(text(out), want[i]))
                    elif content(p) != files:
                        m = 'the run changed its input files'
                    else:
                        s = snapshot(objs[i])
                        k = [k for k in s if s[k] != snaps[i].get(k)]
                        if k:
                            m = 'the run changed its %s: %s' % (
                                k[0], s[k[0]][:300])
                    res.count('transitions')
                    res.count('whole program runs')
                    if m:
                        res.bad(dict(case, order=list(order)), m)
                        return
                res.count('paths')
                res.count('schedules')
            res.states.update(explore.digest(w) for w in want)

    def r_programs(self, case):
        res = explore.Result()
        self.judge(res, case)
        return [m for _, m in res.violations]

    def t_again(self, res, t):
        self.again(res, dict(kind='again', case=self.program(t['a'],
                                                             'normal')))

    def again(self, res, case):
        """one configuration object for several simulations"""
        from inicheck.config import MasterConfig
        from inicheck.tools import get_user_config
        from pysnobal.pysnobal import PySnobal
        import pysnobal
        with driver.Scratch() as d:
            ini = driver.prepare(case['case'], d)
            out = os.path.join(d, 'out.csv')
            try:
                PySnobal(ini).run()
            except Exception as e:
                if 'converge' in str(e):
                    return
                res.bad(case, '%s: %s' % (type(e).__name__, e))
                return
            want = text(out)
            core = os.path.join(os.path.dirname(pysnobal.__file__),
                                'pysnobal_core_config.ini')
            if not os.path.exists(core):
                res.out('no core configuration file')
                return
            u = get_user_config(ini, mcfg=MasterConfig(path=core))
            before = None
            for k in range(3):
                os.unlink(out)
                p = PySnobal(u)
                if before is None:
                    before = repr(sorted_cfg(u.cfg))
                p.run()
                res.count('transitions')
                res.count('whole program runs')
                if text(out) != want:
                    res.bad(case, 'simulation %d from one configuration '
                            'object: %s' % (k + 1, difference(
                                text(out), want)))
                    return
                if repr(sorted_cfg(u.cfg)) != before:
                    res.bad(case, 'the simulation changed its configuration '
                            'from %s to %s' % (before,
                                               repr(sorted_cfg(u.cfg))))
                    return
            res.count('paths')
            res.states.add(explore.digest(want))

    def r_again(self, case):
        res = explore.Result()
        self.again(res, case)
        return [m for _, m in res.violations]

    def t_process(self, res, t):
        self.process(res, dict(kind='process', case=self.program(t['a'],
                                                                 'normal')))

    def process(self, res, case):
        """here and in new processes with other hash seeds"""
        from pysnobal.pysnobal import PySnobal
        with driver.Scratch() as d:
            ini = driver.prepare(case['case'], d)
            out = os.path.join(d, 'out.csv')
            try:
                PySnobal(ini).run()
            except Exception as e:
                if 'converge' in str(e):
                    return
                res.bad(case, '%s: %s' % (type(e).__name__, e))
                return
            want = text(out)
            for seed in ('1', '77'):
                os.unlink(out)
                m = elsewhere(ini, d, seed)
                res.count('transitions')
                res.count('whole program runs')
                got = text(out) if not m else 'no output: ' + m
                if got != want:
                    res.bad(case, 'in a new process: ' + difference(got, want))
                    return
            res.count('paths')
            res.states.add(explore.digest(want))

    def r_process(self, case):
        res = explore.Result()
        self.process(res, case)
        return [m for _, m in res.violations]


def elsewhere(ini, d, seed='1'):
    """run a program in a new process, returns a message if it fails"""
    out = os.path.join(d, 'out.csv')
    for _ in range(3):
        p = subprocess.run(
            [env.PYPY, '-W', 'ignore', '-c',
             'import sys; sys.path.insert(0, %r)\n'
             'from pysnobal.pysnobal import PySnobal\n'
             'PySnobal(%r).run()' % (env.REPO, ini)], cwd=d,
            env=dict(os.environ, PYTHONHASHSEED=seed,
                     PYTHONDONTWRITEBYTECODE='1'),
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        # a negative code is the interpreter's crash, not the program's doing
        if p.returncode >= 0:
            break
    if p.returncode or not os.path.exists(out):
        return p.stderr.decode('utf8', 'replace')[-200:] or 'no output'
    return None


def sorted_cfg(c):
    return sorted((a, sorted((k, repr(v)) for k, v in b.items()))
                  for a, b in c.items())


def text(path):
    with open(path) as f:
        return f.read()


def content(p):
    out = {}
    for n in ('in.csv', 'c.ini'):
        out[n] = text(os.path.join(p, n))
    return out


def snapshot(p):
    """what a simulation was given, as far as the object keeps it"""
    out = {}
    for k in ('params', 'tstep_info', 'initial_snow_properties',
              'measurement_heights', 'config', 'start_date', 'end_date',
              'data_time_step', 'output_mode', 'elevation'):
        if hasattr(p, k):
            v = getattr(p, k)
            out[k] = repr(sorted_cfg(v)) if k == 'config' else repr(
                sorted(v.items(), key=str) if isinstance(v, dict) else v)
    df = getattr(p, 'input_data', None)
    if df is not None and hasattr(df, 'to_dict'):
        out['input_data'] = repr([(str(i), sorted(r.items())) for i, r in
                                  df.to_dict('index').items()])
    return out


def difference(a, b):
    la, lb = a.splitlines(), b.splitlines()
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return 'line %d is %s instead of %s' % (i + 1, x[:300], y[:300])
    return '%d lines instead of %d' % (len(la), len(lb))


CHECKS = [Determinism(), Caches()]
