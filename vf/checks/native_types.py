"""C16, C23, C26: programs of vf/typegen.py on the two native backends"""
import random
from .. import cases, diff, probes, ref


def check(ck, cls, what, quick, thorough):
    ck.rule = 'distinct generated programs whose traces were compared on a native backend'
    ck.assumptions = ['gcc as the reference on both data models (freestanding on i386); the programs are certified by ASan and UBSan on the 64-bit one']
    ts = {64: diff.native(ck, 'x86_64'), 32: diff.native(ck, 'i386')}

    def one(s):
        rng = random.Random('%d/%s/%d' % (ck.seed, what, s))
        bits = 64 if s % 2 == 0 else 32
        g = cls(rng, bits)
        src = (cases.NAT64_PRELUDE if bits == 64 else cases.NAT_PRELUDE) + g.source()
        ck.count()
        x = None
        if bits == 32:
            x, y = ref.reference(ck, src)
            if x is not None:
                x, y = ref.reference32(ck, src)
            if x is None:
                ck.unsure('%s %d: no reference: %r' % (what, s, y))
                return
        diff.check_source(ck, src, [ts[bits]], '%s %d' % (what, s), x=x)
        ck.seen(src)
        for k, v in g.stats.items():
            ck.bump(k.replace(' ', '_'), v)
        if s < 2:
            ck.sample(src)
    ck.pmap(one, range(ck.scale(quick, thorough)))
    probes.run(ck)
