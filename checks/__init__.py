"""All checks by property id."""


def get(cid):
    return registry()[cid]


def registry():
    from . import clock, files, formulas, modes, objects, physics, \
        validity, program, steps
    out = {}
    for m in (physics, program, modes, steps, formulas, files,
              objects, validity, clock):
        for c in m.CHECKS:
            assert c.id not in out
            out[c.id] = c
    return out
