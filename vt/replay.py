"""Re-run a recorded counterexample on the real code with plain numpy.

usage: python -m vt.replay FILE   (exit 1: the violation reproduces)
"""
import json
import random
import sys
from . import runner, nppatch


def main():
    d = json.load(open(sys.argv[1]))
    nppatch.install()            # wrappers stay inactive: no symbolic path
    for tier in (d.get('tier', 'quick'), 'thorough'):
        _, cases = runner.get_cases(d['property'], tier)
        cs = [c for c in cases if c.name == d['case']]
        if cs:
            break
    else:
        print('no such case')
        return 2
    c, exc = runner.run_concrete(cs[0], dict(d['values']), random.Random(0))
    for lab, det in c.failed:
        print('REPRODUCED %s %s: %s: %s' % (d['property'], d['case'], lab,
                                            det))
    if exc is not None:
        print('REPRODUCED %s %s: exception %s: %s at %s' % (
            d['property'], d['case'], type(exc).__name__, exc,
            runner.tb_short(exc)))
    return 1 if c.failed or exc is not None else 0


if __name__ == '__main__':
    sys.exit(main())
