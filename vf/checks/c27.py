"""C27: executables for macOS behave as the C program."""
import random
from .. import cases, corpus, diff, flow, probes, ref, typegen
from . import c13
from ..core import run


def check(ck):
    ck.rule = 'distinct generated programs whose executables for macOS were run and compared with the reference'
    ck.assumptions = ['machorun.c (a loader that gives programs exactly what the load commands describe and emulates the system calls of macOS, with its numbers, flags and carry flag) stands for macOS', 'gcc as the reference', 'system calls that fail are excluded (known finding)']
    t = diff.Mac(ck)
    t.retry = False

    def one(s):
        rng = random.Random('%d/mac/%d' % (ck.seed, s))
        if s % 4 == 0:
            p = c13.IO(rng, t)
            c13.check_io(ck, p, 'program %d' % s)
            return
        src = corpus.program(rng, 'x86_64')
        pad = rng.choice([0, 0, rng.randint(1, 6000)])
        if pad:
            # the code crosses page boundaries at all offsets
            src += ''.join('char *pad%d = "%s";\n' % (i, 'x' * min(900, pad - i * 900)) for i in range((pad + 899) // 900))
        ck.count()
        diff.check_source(ck, src, [t], 'program %d' % s)
        ck.seen(src)
        if s == 1:
            ck.sample(src)
    ck.pmap(one, range(ck.scale(400, 12000)))
    probes.run(ck)
