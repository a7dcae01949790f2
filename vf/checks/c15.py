"""C15: calls, parameters and local variables in scripts"""
import random
from .. import cases, diff, probes
from ..calls import Calls

MODES = [[], ['-DSH_SAVE_VARS_WITH_SET'], ['-DSH_INITIALIZE_PARAMS_WITH_LET'], ['-DRELEASE_PNUT_SH'], ['-DOPTIMIZE_CONSTANT_PARAM'], ['-DRELEASE_PNUT_SH', '-DRT_COMPACT', '-DSH_SAVE_VARS_WITH_SET']]


def check(ck):
    ck.rule = 'distinct generated programs whose traces were compared'
    ck.assumptions = ['gcc as the reference']
    shells = ['dash', 'bash', 'ksh', 'mksh', 'zsh', 'yash']
    ts = [diff.sh(ck, ['dash', shells[(i + 1) % 6]], flags=m) for i, m in enumerate(MODES)]

    def one(s):
        rng = random.Random('%d/calls/%d' % (ck.seed, s))
        g = Calls(rng, 32, sh=True)
        src = cases.SH_PRELUDE + g.source()
        diff.check_source(ck, src, [ts[s % len(ts)]], 'calls %d %s' % (s, ' '.join(MODES[s % len(ts)])))
        ck.count()
        ck.seen(src)
        for k, v in g.stats.items():
            ck.bump(k.replace(' ', '_'), v)
        if s < 2:
            ck.sample(src)
    ck.pmap(one, range(ck.scale(240, 6000)))
    probes.run(ck)
