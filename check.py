#!/opt/pypyvenv/bin/python
"""check.py <ID>              decide one property (VERIF_SEED, VERIF_TIER)
check.py setup             verify that the code under test imports
check.py replay FILE        repeat a recorded violation
check.py shrink SRC DST     minimise a recorded violation"""
import os
import sys

PY = '/opt/pypyvenv/bin/python'
ENV = {'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1'}


def main():
    if any(os.environ.get(k) != v for k, v in ENV.items()) or not os.path.samefile(sys.prefix, '/opt/pypyvenv'):
        env = dict(os.environ, **ENV)
        os.execve(PY, [PY] + sys.argv, env)
    import json
    import warnings
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from sim import driver, props
    a = sys.argv[1]
    if a == 'setup':
        from sim import seams
        seams.fresh()
        print('chumpy imports from %s' % seams.PKG)
        return 0
    if a in ('replay', 'shrink'):
        P = props.get(json.load(open(sys.argv[2]))['property'])
        P.warm()
        return driver.do_replay(P, sys.argv[2]) if a == 'replay' else driver.do_shrink(P, sys.argv[2], sys.argv[3])
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    return driver.check(props.get(a), seed, tier)


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
