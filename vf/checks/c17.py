"""C17: the options of the compiler change the scripts, not what they do."""
import random
from .. import corpus, core, diff, probes
from . import c12, c13

OPTS = ['SH_AVOID_PRINTF_USE_NOT', 'SH_SAVE_VARS_WITH_SET', 'RT_FREE_UNSETS_VARS_NOT', 'RT_COMPACT', 'OPTIMIZE_LONG_LINES', 'OPTIMIZE_CONSTANT_PARAM',
        'RT_UNSAFE_HEAP', 'SH_INCLUDE_C_CODE', 'SH_INLINE_CHAR_LITERAL', 'INCLUDE_ALL_RUNTIME', 'SUPPORT_LINE_CONTINUATION', 'SAFE_MODE', 'INCLUDE_LINE_NUMBER_ON_ERROR']
NAT = ['SAFE_MODE', 'SUPPORT_LINE_CONTINUATION', 'INCLUDE_LINE_NUMBER_ON_ERROR', 'NICE_ERR_MSG', 'OPTIMIZE_LONG_LINES', 'DEBUG_SHOW_ERR_ORIGIN']


def combos(rng, opts, n):
    """Every option alone, every option but one, then random sets"""
    r = [[o] for o in opts] + [[o for o in opts if o != p] for p in opts]
    rng.shuffle(r)
    r = r[:n * 2 // 3]
    while len(r) < n:
        k = rng.choice([0.2, 0.5, 0.8])
        r.append([o for o in opts if rng.random() < k])
    return r


def check(ck):
    ck.rule = 'distinct pairs of a set of options and a program whose script was compared with the C program'
    ck.assumptions = ['RT_NO_INIT_GLOBALS, which is documented not to initialise globals, SUPPORT_ADDRESS_OF_OP, INITIALIZE_LOCAL_VARS_WITH_ZERO and HANDLE_SIGNALS, which do not compile, are excluded']
    sets = combos(ck.rng, OPTS, ck.scale(20, 60))
    ck.build_all([(['-Dsh'] + ['-D' + o for o in s], {'san': True}) for s in sets])
    ck.bump('sets of options', len(sets))

    def one(s):
        rng = random.Random('%d/options/%d' % (ck.seed, s))
        o = sets[s % len(sets)]
        k = s // len(sets)
        # hexadecimal literals under zsh and -0 under ksh are known findings of C02
        sh = ['dash', 'bash', 'ksh', 'mksh', 'yash', 'zsh'][(s + k) % 6] if k % 4 == 1 else ['dash', 'bash', 'mksh', 'yash'][(s + k) % 4]
        t = diff.sh(ck, [sh], flags=['-D' + x for x in o])
        t.ignore_err = c12.EXCESS
        what = 'options %s' % ' '.join(o)
        ck.count()
        for x in o:
            ck.bump('programs with ' + x)
        if k % 4 == 1:
            src = c12.program(rng, 2 if 'SH_AVOID_PRINTF_USE_NOT' in o else 1, sh != 'yash')
            diff.check_source(ck, src, [t], what, ref_flags=['-DL=""'])
        elif k % 4 == 3 and 'SUPPORT_LINE_CONTINUATION' not in o:
            p = c13.IO(rng, t)
            c13.check_io(ck, p, what)
            return
        else:
            src = corpus.program(rng, 'sh')
            diff.check_source(ck, src, [t], what)
        ck.seen(src, o)
        if s == 0:
            ck.sample(src)
    ck.pmap(one, range(ck.scale(400, 12000)))

    # the options of the native backends do not change the executable
    def native(s):
        rng = random.Random('%d/native/%d' % (ck.seed, s))
        a = ['i386', 'x86_64', 'mac'][s % 3]
        tgt = '-Dtarget_x86_64_mac' if a == 'mac' else '-Dtarget_%s_linux' % a
        o = nsets[s % len(nsets)]
        src = corpus.program(rng, 'x86_64' if a == 'mac' else a)
        f = ck.s.write(src, '.c')
        x = core.run([ck.build(tgt), f])
        y = core.run([ck.build(tgt, *['-D' + p for p in o], san=True), f])
        ck.count()
        ck.seen(src, o, a)
        if x.timeout or y.timeout:
            ck.unsure('timeout')
        elif x.rc == 1 and y.rc == 1:
            ck.unsure('the program is rejected')
        elif x.rc or y.rc or x.out != y.out or y.err:
            ck.violation('%s with the options %s: %s' % (a, ' '.join(o), 'the executables differ' if x.rc == y.rc == 0 else repr(y) + repr(x)), {'input.c': src})
    nsets = combos(ck.rng, NAT, ck.scale(4, 20))
    ck.pmap(native, range(ck.scale(90, 2400)))
    probes.run(ck)
