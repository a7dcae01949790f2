"""C28: identifiers designate the declarations in scope, in their name space."""
import random
from .. import cases, diff, probes
from ..scopes import Scopes


def check(ck):
    ck.rule = 'distinct generated programs whose traces were compared'
    ck.assumptions = ['gcc -O0 with ASan and UBSan as the reference of C', 'local types, enumerators and typedef names, extern and function declarations in blocks are outside of the subset, and in scripts local variables that hide each other']
    ts = [diff.native(ck, 'x86_64'), diff.native(ck, 'i386'), diff.native(ck, 'x86_64'), diff.sh(ck, ['dash', 'bash'])]
    tsh = diff.sh(ck, ['ksh', 'mksh', 'yash', 'zsh'], flags=['-DSH_SAVE_VARS_WITH_SET'])

    def one(s):
        t = ts[s % len(ts)] if s % 40 != 7 else tsh
        sh = bool(t.shells)
        g = Scopes(random.Random('%d/scopes/%d' % (ck.seed, s)), 64 if t is ts[0] else 32, sh)
        src = (cases.SH_PRELUDE_PUTCHAR if sh else cases.NAT_PRELUDE) + g.source()
        ck.count()
        diff.check_source(ck, src, [t], 'scopes %d' % s)
        ck.seen(src)
        for k, v in g.stats.items():
            ck.bump(k.replace(' ', '_'), v)
        if s < 2:
            ck.sample(src)
    ck.pmap(one, range(ck.scale(480, 14000)))
    probes.run(ck)
