"""bash check.sh <property> [quick|thorough] | replay <file> | one <p> <i>"""
import os
import sys


def main(argv):
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    from . import seams
    try:
        seams.install()
    except Exception:  # pylint: disable=broad-except
        import traceback
        traceback.print_exc()
        print('the package cannot be imported')
        return 2
    from . import core, world  # noqa
    if argv[0] == 'replay':
        return core.replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    runs = int(os.environ['VERIF_RUNS']) if os.environ.get('VERIF_RUNS') \
        else None
    if tier == 'one':
        scn = core.scenario(prop)
        plan = core.make_plan(scn, prop, seed, int(argv[2]), 'quick')
        import json
        print(json.dumps(plan)[:3000])
        if len(argv) > 3:
            res = core.execute(scn, plan)
        else:
            res = core.run_child(scn, plan)
        print(json.dumps(res, indent=1)[:6000])
        return 0
    return core.check(prop, tier, seed, runs,
                      verbose=bool(os.environ.get('VERIF_VERBOSE')))


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
