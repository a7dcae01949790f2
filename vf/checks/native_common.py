import random
from .. import battery, cases, diff, pointers, probes, progs, ref


def check(ck, arch):
    ck.rule = 'distinct (context, operator tree) shapes of typed expression cases and distinct generated programs whose traces were compared'
    ck.assumptions = ['gcc -O0 with ASan and UBSan as the reference of C', 'known findings of known_findings.txt are outside of the generated subset']
    t = diff.native(ck, arch)
    dialect = 'native64' if arch == 'x86_64' else 'native32'
    b = battery.Battery(ck.rng, dialect, per=100)
    b.operators(typed=True)
    b.pairs(typed=True)
    b.pairs(typed=False, percent=ck.scale(50, 100))
    b.logic()
    b.conversions(values=ck.scale(6, 24), percent=ck.scale(60 if arch == 'x86_64' else 100, 100))
    b.random(ck.scale(1500, 40000), 3)
    b.random(ck.scale(1000, 40000), 4)
    b.random(ck.scale(300, 10000), 5)
    ck.bump('cases_without_valuation', b.dropped)
    jobs = [('cases', p, i) for i, p in enumerate(b.programs)] + [('prog', s, s) for s in range(ck.scale(450, 12000))] + [('ptr', s, s) for s in range(ck.scale(200, 6000))]
    ck.sample(b.programs[0].bodies[5])

    def one(j):
        kind, p, i = j
        if kind == 'cases':
            diff.check_cases(ck, p, [t], 'expression cases')
        elif kind == 'ptr':
            bits = 64 if arch == 'x86_64' else 32
            g = pointers.Pointers(random.Random('%d/ptr/%d' % (ck.seed, p)), bits)
            src = (cases.NAT64_PRELUDE if bits == 64 else cases.NAT_PRELUDE) + g.source()
            ck.count()
            x = None
            if bits == 32:
                x, y = ref.reference(ck, src)
                if x is not None:
                    x, y = ref.reference32(ck, src)
                if x is None:
                    ck.unsure('pointers %d: no reference: %r' % (p, y))
                    return
            diff.check_source(ck, src, [t], 'pointer program %d' % p, x=x)
            ck.seen(src)
            for k, n in g.stats.items():
                ck.bump('pointers: ' + k, n)
        else:
            rng = random.Random('%d/prog/%d' % (ck.seed, p))
            g = progs.Prog(rng, 'native')
            src = g.source(cases.NAT_PRELUDE)
            if p == 1:
                ck.sample(src)
            diff.check_source(ck, src, [t], 'generated program')
            ck.count()
            ck.seen(src)
            for k, n in g.stats.items():
                ck.bump('stmt ' + k, n)
    ck.pmap(one, jobs)
    probes.run(ck)
