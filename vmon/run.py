import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vmon import core  # noqa


def selftest():
    """The harness itself: each kind of failure must be seen, and nothing else."""
    import numpy as np
    import marxs  # noqa
    W = core.Registry('SELF', rule='-')

    @W(quick=2, thorough=2)
    def good(c):
        c.check(True, 'x')
        c.close([1., np.nan], [1., np.nan], 'x')
        c.same([1, 2], [1, 2], 'x')
        c.raises(ValueError, lambda: int('a'), 'x')
        c.count('n')

    @W(quick=1, thorough=1)
    def wrong(c):
        c.close([1.], [2.], 'wrong-close')
        c.same([1.], [np.nan], 'wrong-same')
        c.raises(ValueError, lambda: None, 'wrong-raises')
        c.pvalue(1e-30, 'wrong-p')

    @W(quick=1, thorough=1)
    def crash(c):
        np.zeros(3)[7]

    @W(quick=1, thorough=1)
    def missing(c):
        c.check(True, 'x')
        None.strip()

    @W(quick=1, thorough=1)
    def unfit(c):
        c.check(True, 'x')
        marxs.does_not_exist

    @W(quick=1, thorough=1, cpu=1)
    def hang(c):
        while True:
            pass
    mon = core.Monitor(W, 'quick', 1)
    mon.run()
    got = sorted({v['mech'] for v in mon.violations})
    want = sorted(['wrong-close', 'wrong-same', 'wrong-raises', 'wrong-p', 'exception:crash:IndexError', 'exception:missing:AttributeError',
                   'no-termination:hang'])
    ok = got == want and len(mon.errors) == 1 and 'does_not_exist' in mon.errors[0] and mon.evaluations == 7
    print('selftest', 'ok' if ok else f'FAILED {got} {mon.errors}')
    return 0 if ok else 1


if __name__ == '__main__':
    if sys.argv[1] == '--selftest':
        sys.exit(selftest())
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'):
            tier = a
        elif a.startswith('--replay='):
            replay = a.split('=', 1)[1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    sys.exit(core.main(prop, tier, seed, replay))
