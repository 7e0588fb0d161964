#!/usr/bin/env python3
"""Run one check:  run.py C01 [--tier quick|thorough] [--replay FILE]"""
import argparse
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

VT = '/opt/veriftools/pyvenv/bin/python'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--worker', action='store_true')
    ap.add_argument('--task', help='run one task (JSON) here and print')
    a = ap.parse_args()
    from vlib import env, harness
    if not (env.IS_PYPY or a.worker or a.replay) and \
            os.path.realpath(sys.prefix) != os.path.realpath(
                os.path.dirname(os.path.dirname(VT))) and \
            os.path.exists(VT):
        os.execv(VT, [VT] + sys.argv)
    import checks
    check = checks.get(a.id)
    if a.worker:
        harness.worker(check)
        return 0
    if a.replay:
        case = json.load(open(a.replay))['case']
        out = harness.hide_output()
        try:
            msgs = check.replay(case)
        except BaseException:
            out.write(traceback.format_exc())
            out.flush()
            return 3
        for m in msgs:
            out.write('%s\n' % m)
        out.write('%s\n' % ('reproduced' if msgs else 'not reproduced'))
        out.flush()
        return 1 if msgs else 0
    if a.task:
        r = check.run(json.loads(a.task)).dump()
        r['states'] = len(r['states']) // 8
        print(json.dumps(r, indent=1)[:5000])
        return 0
    s = harness.Session(check, a.tier, int(os.environ.get('VERIF_SEED', 0)))
    s.go()
    return s.finish()


if __name__ == '__main__':
    sys.exit(main())
