#!/opt/venv/bin/python
"""run.py ID [quick|thorough]: run the check of one property."""
import sys
import os
import json
import time
import importlib
import traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib import common            # noqa
from vlib.common import Ctx, StopCheck, write_replay, VERIF, SEED


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else common.TIER
    ctx = Ctx(pid, tier)
    common.CURRENT = ctx
    mod = importlib.import_module('checks.%s' % pid.lower())
    ded = None
    try:
        if hasattr(mod, 'deductive'):
            from pyvc import report
            ded = report.run(ctx, mod.deductive)
        t = time.time()
        try:
            mod.bounded(ctx)
        except StopCheck:
            pass
        bt = time.time() - t
    finally:
        ctx.close()
    return finish(ctx, pid, tier, ded, bt, mod)


def finish(ctx, pid, tier, ded, bt, mod):
    lines = []
    for w in sorted(ctx.known_hit):
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    rc = 0
    refuted = ded.refuted if ded else []
    if ctx.violations:
        what, inp = ctx.violations[0]
        p = write_replay(pid, {
            'property': pid, 'violation': what, 'input': inp,
            'others': [w for w, _ in ctx.violations[1:]],
            'failed_obligations': [o.summary() for o in refuted],
            'rerun': 'cd /verif && VERIF_SEED=%d ./run.py %s %s' % (
                SEED, pid, tier)})
        print(what)
        for o in refuted[:5]:
            print('failed obligation:', o.name)
        print('VIOLATION property=%s replay=%s' % (pid, p))
        rc = 1
    elif refuted:
        p = write_replay(pid, {
            'property': pid,
            'violation': 'proof obligation fails: ' + refuted[0].name,
            'failed_obligations': [o.summary() for o in refuted],
            'rerun': 'cd /verif && ./run.py %s %s' % (pid, tier)})
        for o in refuted[:5]:
            print('failed obligation:', o.name)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (
            pid, p))
        rc = 1
    cov = {'evaluations': ctx.evaluations,
           'distinct_nontrivial': len(ctx.cases),
           'rule': (mod.__doc__ or '').strip().split('\n')[0] +
           ' - inputs are generated from VERIF_SEED; counted are distinct '
           'generated inputs (files, arrays, call sequences) of more than '
           '%d bytes' % ctx.trivial,
           'samples': ctx.samples, 'bounded': ctx.bounded,
           'bounded_wall_s': round(bt, 2)}
    ass = []
    level = 'exploration'
    if ded:
        cov.update(ded.coverage())
        ass = ded.assumptions()
        level = ded.level()
    else:
        cov['obligations'] = cov['discharged'] = 0
    ev = {'property': pid, 'tier': tier, 'seed': SEED, 'level': level,
          'coverage': cov, 'wall_s': round(ctx.elapsed(), 2),
          'assumptions': ass + ctx.notes,
          'violations': [w for w, _ in ctx.violations] +
          ['obligation: ' + o.name for o in refuted]}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    print('%s %s: %s; %d evaluations, %s obligations (%s discharged), %.1f s'
          % (pid, tier, 'violated' if rc else 'held', ctx.evaluations,
             cov.get('obligations'), cov.get('discharged'), ctx.elapsed()))
    return rc


if __name__ == '__main__':
    sys.exit(main())
