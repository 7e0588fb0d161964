"""C09 normal output aggregates all-mode output, C10 output times."""
from vlib import driver, model, ref, space, twin, whole
from vlib.base import driver_init, history
from vlib import base
from checks.program import INIT, Cases, base_case

F = ref.FREEZE

STARTS = ['2000-01-01 00:00', '2004-02-28 21:00', '1999-12-31 22:30',
          '2001-07-15 13:17', '1983-10-01 08:00']
ZONES = ['UTC', 'America/Denver', 'Asia/Kolkata', 'Australia/Adelaide',
         'Etc/GMT+7']


class Modes(Cases):
    mixed = True
    technique = 'exhaustive enumeration of histories run in both output ' \
        'modes, record against run steps; repeated through the whole program'

    def __init__(self, id, oracle):
        self.id = id
        self.x = twin.Extra(oracle)
        self.t_twin, self.t_twinlong = self.x.t_twin, self.x.t_twinlong
        self.r_twin = self.x.r_twin

    def bounds(self, tier):
        b = self.x.bounds(tier)
        b['whole program'] = '%d cases' % len(list(self.cases(tier)))
        return b

    def vt(self, tier):
        return self.x.vt(tier)


class Aggregate(Modes):

    def cases(self, tier):
        ks = space.key_states()
        for i, s in enumerate(ks):
            for j in (0, 3, 5, 6, 8) if tier == 'quick' else range(30):
                yield base_case(cfg=space.CONFIGS[j], init=driver_init(s),
                                weather=whole.short_history(8, i + j),
                                mode='normal')
        for s in (0, 4, 6):
            yield base_case(init=driver_init(ks[s]), weather=history(2),
                            mode='normal')

    def judge(self, case, stats):
        return whole.judge(case, stats, oracle=None)


class Times(Modes):

    def cases(self, tier):
        for tz in ZONES:
            for st in STARTS:
                for mode in ('normal', 'all'):
                    yield base_case(tz=tz, start=st, mode=mode)
        cs = [dict(), dict(data_time_step=180), dict(data_time_step=30,
              norm_time_step=30), dict(norm_time_step=30), dict(
                  norm_time_step=20, medium_time_step=10),
              dict(data_time_step=15, norm_time_step=15, medium_time_step=5),
              dict(data_time_step=360, norm_time_step=60),
              dict(data_time_step=1440, norm_time_step=60),
              dict(data_time_step=10, norm_time_step=5, medium_time_step=5)]
        for c in cs:
            for init in (INIT, dict(INIT, z_s=0., rho=0.),
                         dict(INIT, z_s=.03)):
                for mode in ('normal', 'all'):
                    for st in STARTS[:1 if tier == 'quick' else 5]:
                        yield base_case(cfg=model.cfg(**c), init=init,
                                        start=st, mode=mode)
        # the configured data interval left at its default
        for d, n in ((30, 30), (180, 60), (120, 120)):
            for mode in ('normal', 'all'):
                yield base_case(
                    mode=mode, omit=['time.time_step'],
                    cfg=model.cfg(data_time_step=d, norm_time_step=n,
                                  medium_time_step=15))
        # windows inside and around the data
        for sd, ed in (('2000-01-01 02:00', '2000-01-01 04:00'),
                       ('2000-01-01 01:20', '2000-01-01 04:20'),
                       ('1999-12-31 20:00', '2000-01-01 03:00'),
                       ('1999-12-31 23:30', '2000-01-01 03:30'),
                       ('2000-01-01 03:00', '2000-01-02 00:00'),
                       ('1999-01-01 00:00', '2001-01-01 00:00')):
            for tz in ZONES[:3]:
                for mode in ('normal', 'all'):
                    yield base_case(sd=sd, ed=ed, tz=tz, mode=mode)

    def judge(self, case, stats):
        return whole.judge(case, stats, oracle=None)


CHECKS = [Aggregate('C09', twin.aggregates), Times('C10', twin.times)]
_ = (base, driver)
