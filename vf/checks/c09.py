"""C09: the compiler ends normally, without memory errors, for every input."""
import os, random, re
from .. import corpus, overflow, probes
from ..core import run

BACK = {'sh': ['-Dsh'], 'x86_64': ['-Dtarget_x86_64_linux'], 'i386': ['-Dtarget_i386_linux'], 'mac': ['-Dtarget_x86_64_mac']}
LOC = ['-DINCLUDE_LINE_NUMBER_ON_ERROR', '-DNICE_ERR_MSG']
# options of the compiler, the last ones print tokens or declarations instead of compiling
OPTS = [LOC, [], LOC + ['-DOPTIMIZE_LONG_LINES'], ['-DSUPPORT_LINE_CONTINUATION'] + LOC, ['-DSH_SAVE_VARS_WITH_SET'], ['-DOPTIMIZE_CONSTANT_PARAM'], ['-DRT_COMPACT'], ['-DALLOW_RECURSIVE_MACROS'], ['-DSH_INCLUDE_C_CODE'],
        ['-DDEBUG_CPP'] + LOC, ['-DDEBUG_PARSER'], ['-DDEBUG_PARSER', '-DDEBUG_PARSER_SEXP'] + LOC, ['-DDEBUG_EXPAND_INCLUDES'], ['-DDEBUG_GETCHAR']]
# what only SAFE_MODE rejects, by design
SAFE_ONLY = re.compile(rb'Label .* is not defined|codegen_params: Function expects|alled object is not a function')


def describe(r):
    m = re.search(rb'runtime error: [^\n]*|ERROR: AddressSanitizer: [\w-]+|MemorySanitizer: [\w-]+', r.err)
    fr = [b'%s %s' % x for x in re.findall(rb'#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*?([\w.]+:\d+)', r.err) if not x[0].startswith(b'__')][:4]
    return '%s%s %s' % ('exit status %d' % r.rc, ' (timeout)' if r.timeout else '', ((m.group(0) if m else b'') + b' in ' + b' < '.join(fr)).decode('latin-1') if m else r.err[-200:])


class Run:
    def __init__(self, ck, exe, f, native, timeout=15):
        o = ck.s.path('.out')
        self.r = run([exe, f] + (['-o', o] if native else []), timeout=timeout, stdin=b'')
        self.data = None
        if os.path.exists(o):
            self.data = open(o, 'rb').read()
            os.unlink(o)

    def bad(self):
        return self.r.timeout or self.r.san() or self.r.rc not in (0, 1)


def flags(b, o):
    # the shell backend does not link with the options for debugging
    return (*BACK['x86_64' if b == 'sh' and any('DEBUG' in x for x in o) else b], *o)

OPTS_POSITION = {'sh': ['-DRELEASE_PNUT_SH'], 'x86_64': ['-DSAFE_MODE'], 'i386': ['-DSAFE_MODE']}


def check(ck):
    ck.rule = 'distinct inputs compiled by instrumented compilers'
    ck.assumptions = ['AddressSanitizer, UndefinedBehaviorSanitizer (without shifts and signed overflows, which pnut relies on) and MemorySanitizer detect the errors they are documented to detect', 'nesting of at most 3000 levels, and the default limit of the stack']
    opts = OPTS if ck.thorough else OPTS[:3] + ck.rng.sample(OPTS[3:], 2)
    specs = [(flags(b, o), dict(san=True)) for b in BACK for o in opts]
    specs += [((*BACK[b], '-DSAFE_MODE'), dict(san=True)) for b in BACK]
    specs += [((*BACK[b], *LOC), dict(cc='clang', opt='-fsanitize=memory')) for b in BACK]
    ck.build_all(specs)
    asan = {(b, i): ck.build(*flags(b, o), san=True) for b in BACK for i, o in enumerate(opts)}
    safe = {b: ck.build(*BACK[b], '-DSAFE_MODE', san=True) for b in BACK}
    msan = {b: ck.build(*BACK[b], *LOC, cc='clang', opt='-fsanitize=memory') for b in BACK}
    repo = corpus.repo_sources()

    def observe(name, b, i, src, modes, timeout=15):
        f = ck.s.write(src, '.c')
        native = b != 'sh' and not any('DEBUG' in x for x in opts[i])
        a = Run(ck, asan[b, i], f, native, timeout)
        ck.count()
        what = '%s, pnut for %s with %s' % (name, b, ' '.join(opts[i]) or 'no option')
        if a.bad():
            ck.violation('%s: %s' % (what, describe(a.r)), {'input.c': src, 'stderr': a.r.err[-20000:]})
        else:
            ck.seen(src)
            ck.bump('inputs_accepted' if a.r.rc == 0 else 'inputs_rejected')
            if a.r.rc == 1:
                ck.seen('diagnostic', re.sub(rb'\S*:\d+:\d+ *|\d+', b'', a.r.out.strip().split(b'\n')[-1])[:60])
            if i == 0 and 'safe' in modes:
                s = Run(ck, safe[b], f, native, timeout)
                ck.count()
                if s.bad():
                    ck.violation('%s and SAFE_MODE: %s' % (what, describe(s.r)), {'input.c': src, 'stderr': s.r.err[-20000:]})
                elif (s.r.rc == 1 and SAFE_ONLY.search(s.r.out)):
                    ck.bump('inputs_rejected_only_by_SAFE_MODE' if a.r.rc == 0 else 'inputs_rejected_by_SAFE_MODE')
                elif s.r.rc != a.r.rc or (a.r.rc == 0 and (s.data != a.data or s.r.out != a.r.out)):
                    ck.violation('%s: SAFE_MODE finds an internal inconsistency: %r instead of %r' % (what, s.r, a.r), {'input.c': src})
                else:
                    ck.bump('inputs_on_which_SAFE_MODE_agrees')
            if i == 0 and 'msan' in modes:
                s = Run(ck, msan[b], f, native, timeout)
                ck.count()
                if s.bad():
                    ck.violation('%s and MemorySanitizer: %s' % (what, describe(s.r)), {'input.c': src, 'stderr': s.r.err[-20000:]})
                elif s.r.rc != a.r.rc or s.r.out != a.r.out or s.data != a.data:
                    ck.violation('%s: the output depends on the C compiler: %r with clang and %r with gcc' % (what, s.r, a.r), {'input.c': src})
                else:
                    ck.bump('inputs_checked_for_uninitialized_memory')
        os.unlink(f)
        return a

    def one(n):
        rng = random.Random('%d/memory/%d' % (ck.seed, n))
        b = rng.choice(list(BACK))
        i = rng.choice([0, 0, 1] + list(range(2, len(opts))))
        k = rng.random()
        src = corpus.program(rng, b if b != 'mac' else 'x86_64', small=rng.random() < 0.5) if rng.random() < 0.5 or not repo else open(rng.choice(repo), encoding='latin-1').read()
        if k < 0.08:
            src = corpus.garbage(rng)
        elif k > 0.18:
            src = corpus.mutate(rng, src)
        a = observe('input %d' % n, b, i, src, ['safe' if n % 2 else 'msan'])
        if n == 0:
            ck.sample(src)
    ck.pmap(one, range(ck.scale(3500, 60000)))

    def table(j):
        b, name, k = j
        rng = random.Random('%d/tables/%s/%s/%d' % (ck.seed, b, name, k))
        src = overflow.programs(rng, b)[name]()
        i = rng.choice([0, 0, 1, 2]) if len(src) < 100000 else 0
        a = observe('table of %s' % name, b, i, src, ['safe'] if k == 0 and len(src) < 100000 else [], 40)
        ck.bump('large_inputs')
        if a.r.rc == 0 and b in ('x86_64', 'i386') and a.data and name not in ('sizeof', 'casts', 'postfix', 'array size', 'local array'):
            p = ck.s.write(a.data)
            os.chmod(p, 0o755)
            r = run([p], timeout=10, stdin=b'')
            ck.bump('large_programs_run')
            if r.timeout or r.rc != 0:
                ck.violation('table of %s: the program compiled for %s ends with %r instead of 0' % (name, b, r), {'input.c': src})
            os.unlink(p)
    names = sorted(overflow.programs(random.Random(1), 'x86_64'))
    shn = overflow.programs(random.Random(1), 'sh')
    jobs = [(b, n, k) for k in range(ck.scale(1, 30)) for n in names for b in (list(BACK) if ck.thorough else ck.rng.sample(list(BACK), 2)) if b != 'sh' or n in shn]
    ck.pmap(table, jobs)
    # the sizes around the one from which a table is full, with every alignment of its contents
    def limit(j):
        b, name, k = j
        exe = asan[b, 1 - k % 2]
        bounds = []
        overflow.programs(random.Random(k), b, lambda lo, hi: bounds.append((lo, hi)) or lo)[name]()
        if len(bounds) != 1:
            return
        lo, hi = bounds[0]

        def accepted(n, fill=0):
            c = ('#define vf_fill %s\n' % ' '.join('z%d' % x for x in range(fill)) if fill else '') + overflow.programs(random.Random(k), b, n)[name]()
            f = ck.s.write(c, '.c')
            r = Run(ck, exe, f, b != 'sh', 40)
            os.unlink(f)
            ck.count()
            ck.bump('inputs_around_the_limit_of_a_table')
            if r.bad():
                ck.violation('limit of %s, pnut for %s, size %d: %s' % (name, b, n, describe(r.r)), {'input.c': c, 'stderr': r.r.err[-20000:]})
                raise StopIteration
            return r.r.rc == 0
        try:
            if not accepted(lo):
                return
            if accepted(hi):
                lo, hi = hi, hi * 8
                if name not in wide or accepted(hi):
                    return
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if accepted(mid):
                    lo = mid
                else:
                    hi = mid
            for d in (-2, -1, 2, 3):
                if lo + d > 0:
                    accepted(lo + d)
            for fill in range(1, ck.scale(12, 60)):
                accepted(lo - (fill > 5), fill)
            ck.bump('limits_of_tables_found')
            ck.seen('limit', b, name)
        except StopIteration:
            pass
    fine = ['long identifier', 'string', 'strings', 'escapes', 'adjacent strings', 'stringized', 'macro argument', 'macros']
    wide = ('adjacent strings', 'calls', 'cases', 'declarators', 'enumerators', 'escapes', 'functions', 'gotos', 'initializer', 'local initializer', 'long identifier', 'macro argument', 'macro redefinitions', 'macros', 'prototypes', 'statements', 'string', 'stringized', 'strings', 'structure members', 'typedefs')
    skip = ('exponential macro', 'nested macro calls', 'array size', 'local array')
    jobs = [(b, n, 0) for n in fine for b in ['sh', ck.rng.choice(list(BACK)[1:])]] + [(b, n, k) for k in range(ck.scale(1, 4)) for n in (names if ck.thorough else ck.rng.sample(names, 14)) if n not in skip for b in (list(BACK) if ck.thorough else [ck.rng.choice(list(BACK))]) if b != 'sh' or n in shn]
    ck.pmap(limit, jobs)
    # the position of the objects of a program in the heap
    def position(j):
        p, i, k = j
        b, src, exe, native = progs[p]
        c = '#define vf_fill %s\n%s' % (' '.join('z%d' % x for x in range(k)), src)
        a = Run(ck, exe, ck.s.write(c, '.c'), native, 20)
        ck.count()
        ck.bump('positions_of_a_program_in_the_heap')
        return (a.r.rc, a.r.out, a.data), c
    progs = []
    for p in range(ck.scale(3, 40)):
        rng = random.Random('%d/position/%d' % (ck.seed, p))
        b = ['sh', 'x86_64', 'i386'][p % 3]
        exe = ck.build(*BACK[b], *([] if p % 2 else OPTS_POSITION[b]))
        progs.append((b, 'void vf_e(char *p) {}\nvoid vf_g() { vf_e(""); }\n' + corpus.program(rng, b, small=True), exe, b != 'sh'))
    for p in range(len(progs)):
        l = ck.pmap(position, [(p, i, i) for i in range(1024)])
        first = l[0][0]
        for r, c in l:
            if r != first:
                ck.violation('%s: the output depends on the position of the program in the heap: %r' % (progs[p][0], r[1][-200:] if r[0] != first[0] else 'another executable or script'), {'input.c': c})
                break
    # nesting deeper than the bound of the property
    f = ck.s.write('int main() { return %s0%s; }\n' % ('(' * 300000, ')' * 300000), '.c')
    r = run([ck.build('-Dsh'), f], timeout=20, stdin=b'')
    ck.count()
    ck.probe('deep-nesting', r.rc not in (0, 1), '300000 nested parentheses: %s' % describe(r))
