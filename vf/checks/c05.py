"""C05: the compiler compiled by itself is the same compiler."""
import os, random
from .. import corpus, probes
from ..core import run

BACK = {'sh': ['-Dsh'], 'x86_64': ['-Dtarget_x86_64_linux'], 'i386': ['-Dtarget_i386_linux']}
VARIANTS = [[], ['-DRELEASE_PNUT_SH'], ['-DSAFE_MODE'], ['-DSH_SAVE_VARS_WITH_SET'], ['-DRT_COMPACT', '-DRELEASE_PNUT_SH'], ['-DDEBUG_CPP'], ['-DSH_INITIALIZE_PARAMS_WITH_LET', '-DSH_INLINE_PUTCHAR'], ['-DOPTIMIZE_CONSTANT_PARAM']]
SHOPT = [['-DRELEASE_PNUT_SH'], ['-Dsh', '-DRT_NO_INIT_GLOBALS'], ['-Dsh', '-DRT_NO_INIT_GLOBALS', '-DSH_SAVE_VARS_WITH_SET', '-DOPTIMIZE_CONSTANT_PARAM']]


class Compiler:
    def __init__(self, name, cmd, native):
        self.name, self.cmd, self.native = name, cmd, native

    def run(self, ck, f, opts=(), timeout=60, retry=True):
        """(exit status, output file or None, stdout)"""
        if self.native:
            o = ck.s.path('.out')
            r = run(self.cmd + list(opts) + [f, '-o', o], timeout=timeout, stdin=b'', retry=retry)
            data = open(o, 'rb').read() if os.path.exists(o) else None
            if data is not None:
                os.unlink(o)
        else:
            r = run(self.cmd + list(opts) + [f], timeout=timeout, stdin=b'', retry=retry)
            data = None
        return r, data


def selfcompile(ck, c, opts, what):
    """Compile pnut.c with the compiler c; returns the path of the executable"""
    src = os.path.join(ck.src(), 'pnut.c')
    r, data = c.run(ck, src, opts, timeout=300)
    if not c.native:
        data = r.out
    if r.rc != 0 or r.timeout or not data:
        ck.violation('%s does not compile pnut (exit status %d): %r' % (what, r.rc, (r.out[-300:], r.err[-300:])), {'what': what})
        return None, None
    p = ck.s.write(data)
    os.chmod(p, 0o755)
    return p, data


def same(ck, a, b, f, what, opts=(), src=None, timeout=60):
    ra, da = a
    rb, db = b.run(ck, f, opts, timeout)
    ck.count()
    if rb.timeout:
        ck.unsure('%s: %s timed out' % (what, b.name))
        return
    bad = None
    stub = b'printf is not supported yet.\n'
    if ra.rc == 1 and rb.rc == 10 and rb.out.endswith(stub) and ra.out.startswith(rb.out[:-len(stub)]):
        # the native libc has no printf, which some diagnostics of the shell backend use
        ck.bump('diagnostics_lost_because_native_code_has_no_printf')
    elif b.cmd[0] != b.cmd[-1] and ra.rc == 1 and rb.rc > 0 and ra.out.endswith(b'\nCould not open file\n') and ra.out.startswith(rb.out):
        # a script ends where it fails to open a file (finding sh-open-failure of C13)
        ck.bump('scripts_stopped_at_a_missing_file')
    elif ra.rc != rb.rc:
        bad = 'exit status %d instead of %d; %r instead of %r' % (rb.rc, ra.rc, (rb.out[-200:], rb.err[-300:]), ra.out[-200:])
    elif ra.out != rb.out:
        i = next((i for i, (x, y) in enumerate(zip(ra.out, rb.out)) if x != y), min(len(ra.out), len(rb.out)))
        bad = 'the output differs at byte %d: %r instead of %r' % (i, rb.out[max(0, i - 40):i + 60], ra.out[max(0, i - 40):i + 60])
    elif (da is None) != (db is None) or (da is not None and da != db and ra.rc == 0):
        bad = 'the executable differs'
    elif rb.err and not ra.err:
        bad = 'unexpected output on stderr: %r' % rb.err[-200:]
    if bad:
        ck.violation('%s: %s does not agree with the compiler built by gcc: %s' % (what, b.name, bad), {'input.c': src if src is not None else open(f, 'rb').read(), 'expected': ra.out, 'got': rb.out})
    elif ra.rc == 0:
        ck.bump('accepted_inputs_compared')
    else:
        ck.bump('rejected_inputs_compared')


def check(ck):
    ck.rule = 'distinct inputs on which a compiler compiled by itself was compared with the compiler built by gcc'
    ck.assumptions = ['the compiler built by gcc is deterministic (C18)']
    variants = VARIANTS if ck.thorough else [[], ck.rng.choice(VARIANTS[1:])]
    gcc, stages, scripts = {}, {}, {}
    jobs = [(b, i) for i in range(len(variants)) for b in BACK]

    def build(j):
        b, i = j
        gcc[j] = Compiler('gcc', [ck.build(*BACK[b], *variants[i])], b != 'sh')
    ck.pmap(build, jobs)

    def stage(j):
        b, i = j
        o = BACK[b] + variants[i]
        l = []
        for host in ('x86_64', 'i386'):
            h = Compiler('', [ck.build(*BACK[host])], True)
            p, data = selfcompile(ck, h, o, 'pnut for %s' % host)
            if p is None:
                continue
            c = Compiler('pnut %s compiled by pnut for %s' % (' '.join(o), host), [p], b != 'sh')
            l.append(c)
            ck.seen('stage', j, host)
            if b == host:
                # fixed point
                p2, data2 = selfcompile(ck, c, o, c.name)
                ck.count()
                ck.bump('fixed_points')
                if p2 and not variants[i] and data2 != data:
                    ck.violation('pnut for %s compiled by itself compiles itself to a different executable' % host, {'first': data, 'second': data2})
                elif p2 and variants[i]:
                    r, d = gcc[j].run(ck, os.path.join(ck.src(), 'pnut.c'), o, 300)
                    if d != data2:
                        ck.violation('pnut for %s with %s compiled by itself compiles itself to another executable than when built by gcc' % (host, o), {'first': d, 'second': data2})
        stages[j] = l
        # scripts
        l = []
        for k, so in enumerate(SHOPT):
            p, data = selfcompile(ck, Compiler('', [ck.build(*so)], False), o, 'pnut for the shell')
            if p:
                l.append((k, p))
        scripts[j] = l
    ck.pmap(stage, jobs)
    repo = corpus.repo_sources()

    def one(n):
        rng = random.Random('%d/self/%d' % (ck.seed, n))
        j = jobs[n % len(jobs)]
        k = rng.random()
        if k < 0.5 or not repo:
            src = corpus.program(rng, j[0])
        elif k < 0.62:
            src = open(rng.choice(repo), encoding='latin-1').read()
        else:
            src = corpus.mutate(rng, corpus.program(rng, j[0]) if rng.random() < 0.5 else open(rng.choice(repo), encoding='latin-1').read())
        f = ck.s.write(src, '.c')
        a = gcc[j].run(ck, f, timeout=5, retry=False)
        if a[0].timeout or a[0].rc < 0:
            # not the subject of this check
            ck.bump('inputs_not_compiled_by_the_compiler_built_by_gcc')
            os.unlink(f)
            return
        for c in stages[j]:
            same(ck, a, c, f, 'input %d' % n, src=src)
        ck.seen(src)
        if n == 0:
            ck.sample(src)
        os.unlink(f)
    ck.pmap(one, range(ck.scale(900, 24000)))

    def small(n):
        rng = random.Random('%d/script/%d' % (ck.seed, n))
        j = jobs[n % len(jobs)]
        sh = ['dash', 'ksh', 'bash', 'zsh', 'mksh', 'yash'][(n // len(jobs)) % (6 if ck.thorough else 3)]
        src = corpus.program(rng, j[0], small=True) if rng.random() < 0.5 or not repo else open(rng.choice([x for x in repo if os.path.getsize(x) < 1500]), encoding='latin-1').read()
        if rng.random() < 0.4:
            src = corpus.mutate(rng, src)
        src = ''.join(c if 0 < ord(c) < 128 else '?' for c in src)
        f = ck.s.write(src, '.c')
        a = gcc[j].run(ck, f, timeout=5, retry=False)
        if a[0].timeout or a[0].rc < 0 or not scripts[j]:
            ck.bump('inputs_not_compiled_by_the_compiler_built_by_gcc')
            os.unlink(f)
            return
        k, p = rng.choice(scripts[j])
        c = Compiler('the script of pnut %s by pnut %s under %s' % (' '.join(BACK[j[0]] + variants[j[1]]), ' '.join(SHOPT[k]), sh), [sh, p], j[0] != 'sh')
        same(ck, a, c, f, 'input %d' % n, src=src, timeout=100)
        ck.bump('inputs_compiled_by_scripts')
        ck.seen('script', src)
        os.unlink(f)
    ck.pmap(small, range(ck.scale(48, 1500)))
    probes.run(ck)
