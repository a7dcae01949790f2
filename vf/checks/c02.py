"""C02: the script of a program behaves identically under the six supported shells."""
import random
from .. import battery, cases, core, diff, probes, progs, shflow


def check(ck):
    ck.rule = 'distinct expression case shapes and distinct programs, executed under dash, bash, ksh, mksh, yash and zsh'
    ck.assumptions = ['the shells installed here', 'known findings: hexadecimal literals under zsh, -0 under ksh, special parameters as local names']
    t = diff.sh(ck, core.SHELLS)
    b = battery.Battery(ck.rng, 'sh', per=60, noneg0=True, fmts='d')
    b.operators(contexts=ck.rng.sample(cases.CONTEXTS, ck.scale(5, 22)))
    b.pairs(percent=ck.scale(40, 100))
    b.logic()
    b.random(ck.scale(200, 4000), 3)
    b.random(ck.scale(200, 4000), 4)
    ck.bump('cases_without_valuation', b.dropped)
    jobs = [('prog', s, s) for s in range(ck.scale(160, 4000))] + [('flow', s, s) for s in range(ck.scale(60, 2000))] + [('cases', p, i) for i, p in enumerate(b.programs)]
    ck.sample(b.programs[0].bodies[5])

    def one(j):
        kind, p, i = j
        if kind == 'cases':
            diff.check_cases(ck, p, [t], 'expression cases')
        elif kind == 'flow':
            g = shflow.ShFlow(random.Random('%d/flow/%d' % (ck.seed, p)))
            src = cases.SH_PRELUDE_PUTCHAR + g.source()
            diff.check_source(ck, src, [t], 'control flow')
            ck.count()
            ck.seen(src)
        else:
            rng = random.Random('%d/prog/%d' % (ck.seed, p))
            g = progs.Prog(rng, 'sh', names=progs.NAMES + progs.HOSTILE if p % 2 else None, fmts='d')
            g.noneg0 = True
            src = g.source(cases.SH_PRELUDE if p % 4 == 1 else cases.SH_PRELUDE_PUTCHAR)
            if p == 1:
                ck.sample(src)
            diff.check_source(ck, src, [t], 'generated program')
            ck.count()
            ck.seen(src)
    ck.pmap(one, jobs)
    probes.run(ck)
