"""Print the last run steps of a replay file's case (development aid)."""
import json
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
from vlib import model  # noqa: E402

case = json.load(open(sys.argv[1]))['case']
n = int(sys.argv[2]) if len(sys.argv) > 2 else 3
print(case['cfg'])
print('init', case['init'])
for w in case['weather'][-2:]:
    print('w', {k: round(v, 4) for k, v in w.items()})
try:
    d = model.run_case(case)
except model.Stopped as e:
    print('STOP', str(e)[:500])
    d = e.done
steps = [s for k in d for s in k][-n:]
for s in steps:
    print('--- at %g dt %g' % (s.el, s.dt))
    print(' pre', {k: s.pre[k] for k in s.pre})
    print(' f  ', s.f)
    print(' rec', {k: v for k, v in s.rec.items() if k != 'date_time'})
