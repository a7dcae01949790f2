"""C01: programs of the shell subset behave under a POSIX shell as C says."""
import random
from .. import battery, cases, diff, probes, progs, shflow


def check(ck):
    ck.rule = 'distinct (context, operator tree) shapes of expression cases and distinct generated programs whose traces were compared'
    ck.assumptions = ['gcc -O0 with ASan and UBSan as the reference of C, dash and bash as POSIX shells',
                      'known findings of known_findings.txt are outside of the generated subset']
    t = diff.sh(ck, ['dash'])
    tb = diff.sh(ck, ['bash'])
    b = battery.Battery(ck.rng, 'sh')
    b.operators()
    b.pairs()
    b.logic()
    b.random(ck.scale(600, 12000), 3)
    b.random(ck.scale(400, 12000), 4)
    ck.bump('cases_without_valuation', b.dropped)
    jobs = [('cases', p, i) for i, p in enumerate(b.programs)]
    jobs += [('prog', s, s) for s in range(ck.scale(400, 8000))]
    jobs += [('flow', s, s) for s in range(ck.scale(300, 8000))]
    ck.sample(b.programs[0].bodies[5])

    def one(j):
        kind, p, i = j
        ts = [tb] if i % 5 == 0 else [t]
        if kind == 'cases':
            diff.check_cases(ck, p, ts, 'expression cases')
        elif kind == 'flow':
            g = shflow.ShFlow(random.Random('%d/flow/%d' % (ck.seed, p)))
            src = cases.SH_PRELUDE_PUTCHAR + g.source()
            diff.check_source(ck, src, ts, 'control flow')
            ck.count()
            ck.seen(src)
            for k, n in g.stats.items():
                ck.bump('flow: ' + k, n)
        else:
            rng = random.Random('%d/prog/%d' % (ck.seed, p))
            g = progs.Prog(rng, 'sh', names=progs.NAMES + progs.HOSTILE if p % 4 == 0 else None)
            src = g.source(cases.SH_PRELUDE if p % 3 else cases.SH_PRELUDE_PUTCHAR)
            if p == 1:
                ck.sample(src)
            diff.check_source(ck, src, ts, 'generated program')
            ck.count()
            ck.seen(src)
            for k, n in g.stats.items():
                ck.bump('stmt ' + k, n)
    ck.pmap(one, jobs)
    probes.run(ck)
