"""C07: conditional groups, included files and macros of the command line."""
import os, random
from .. import cases, diff, groups, meta, probes, progs, ref
from ..core import run


def check(ck):
    ck.rule = 'distinct programs spread over conditional groups and included files whose compilation was compared with that of the plain program'
    ck.assumptions = ['gcc -E certifies that the rewritten program expands to the plain one', 'at most 10 nested conditionals (known finding)']
    ts = [diff.sh(ck, ['dash']), diff.native(ck, 'x86_64'), diff.native(ck, 'i386')]

    def one(s):
        rng = random.Random('%d/group/%d' % (ck.seed, s))
        t = ts[s % 3]
        sh = bool(t.shells)
        src = progs.Prog(rng, 'sh' if sh else t.name, budget=rng.choice([300, 500]), nfuns=rng.randint(2, 4)).source(cases.SH_PRELUDE if sh else cases.NAT_PRELUDE)
        cl, flags = {'CMD_A': 1}, ['-DCMD_A']
        if not sh:
            v = rng.choice([0, 1, 7, 100, 32768, rng.randint(0, 99999)])
            cl.update(CMD_B=v, CMD_C=None)
            flags += rng.choice([['-DCMD_B=%d' % v], ['-D', 'CMD_B=%d' % v]])
            flags += rng.choice([['-D', 'CMD_C='], ['-DCMD_C=']])
        if rng.random() < 0.5:
            flags += ['-DU3'] + rng.choice([['-UU3'], ['-U', 'U3']])
        g = groups.Grouper(rng, src, cl, True)
        d = g.run(rng.randint(1, 6))
        W = ck.s.mkdir()
        os.makedirs(W + '/search/deep')
        for n, text in [('main.c', d), ('orig.c', src), ('search/stdio.h', ''), ('search/stdlib.h', '')] + list(g.files.items()):
            p = os.path.join(W, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as f:
                f.write(text)
        flags += rng.choice([['-I', 'search/'], ['-Isearch/']])
        t1, r = meta.pptokens(ck, d, cwd=W, flags=flags)
        t2, _ = meta.pptokens(ck, src)
        if t1 is None or t1 != t2:
            ck.unsure('the generated groups do not expand to the program: %r' % r.err[:200])
            ck.count()
            return
        main = 'main.c'
        cwd = W
        if rng.random() < 0.3:
            # the directory of the file is not the current directory
            cwd = os.path.dirname(W)
            main = os.path.basename(W) + '/main.c'
            flags = [x.replace('search/', os.path.basename(W) + '/search/') for x in flags]
            ck.bump('compiled from another directory')
        meta.same(ck, t, W + '/orig.c', main, 'conditionals and includes, program %d' % s, cwd_new=cwd, flags=flags,
                  files=dict([('input.c', d)] + [(n.replace('/', '__'), x) for n, x in g.files.items()]))
        ck.seen(d)
        for k, v in g.stats.items():
            ck.bump('use of ' + k, v)
        if s == 0:
            ck.sample(d)
    ck.pmap(one, range(ck.scale(700, 12000)))
    fixed(ck, ts)
    probes.run(ck)


def fixed(ck, ts):
    for t in ts:
        sh = bool(t.shells)
        pre = cases.SH_PRELUDE if sh else cases.NAT_PRELUDE
        # no header is found: the standard headers are ignored, whatever their name
        ck.count()
        s = pre + '#include <no/such/header.h>\n#include <stdint.h>\nint main() { out(4); return 0; }\n'
        diff.check_source(ck, s, [t], 'ignored headers', ref_src=s.replace('#include <no/such/header.h>\n', ''))
        # conditionals nested up to the limit
        for n in (1, 5, 9, 10):
            s = pre + 'int main() {\n' + ''.join('#if%s\nout(%d);\n' % (' 1' if i % 3 else 'def UNDEF\nout(-1);\n#else\n#if 1', i) if False else '#if 1\nout(%d);\n' % i for i in range(n)) + \
                ''.join('#else\nout(-%d);\n#endif\nout(%d);\n' % (i + 1, i + 100) for i in range(n)) + 'return 0; }\n'
            diff.check_source(ck, s, [t], '%d nested conditionals' % n)
            ck.count()
        # several files of the command line
        W = ck.s.mkdir()
        for n, x in (('a.c', 'int a = 5;\n'), ('b.c', 'int b() { return a + 1; }'), ('main.c', pre + 'int main() { out(b()); return 0; }\n')):
            with open(os.path.join(W, n), 'w') as f:
                f.write(x)
        whole = ''.join(open(os.path.join(W, n)).read() + '\n' for n in ('a.c', 'b.c', 'main.c'))
        x, r = ref.reference(ck, pre + whole.replace(pre, ''))
        out = ck.s.path('.out')
        ck.count()
        # the files are stacked: the last one is read first
        c = run([t.exe, 'main.c', 'b.c', 'a.c'] + ([] if sh else ['-o', out]), cwd=W)
        if sh:
            with open(out, 'wb') as f:
                f.write(c.out)
        elif c.rc == 0:
            os.chmod(out, 0o755)
        if c.rc != 0 or c.timeout:
            ck.violation('several input files [%s]: %r' % (t.name, c))
        else:
            for n, y in t.runs(out):
                d = diff.describe(x, y)
                if d:
                    ck.violation('several input files [%s]: %s' % (n, d))
        ck.seen('fixed', t.name)
        # the last line of the main file, without a newline, is an #include
        with open(os.path.join(W, 'last.h'), 'w') as f:
            f.write('int main() { out(b + 7); return 3; }')
        for tail in ('#include "last.h"', '#include "last.h" ', '#if 1\n#include "last.h"\n#endif', '#include "last.h" /* c */', '#include "last.h" // c'):
            with open(os.path.join(W, 'm2.c'), 'w') as f:
                f.write(pre + 'int b = 2;\n' + tail)
            out = ck.s.path('.out')
            ck.count()
            c = run([t.exe, 'm2.c'] + ([] if sh else ['-o', out]), cwd=W)
            if sh:
                with open(out, 'wb') as f:
                    f.write(c.out)
            elif c.rc == 0:
                os.chmod(out, 0o755)
            y = None if c.rc else next(iter(t.runs(out)))[1]
            if y is None or y.out != b'9\n' or y.rc != 3:
                ck.violation('%r at the end of the main file [%s]: %r' % (tail, t.name, y or c))
        # a string macro of the command line
        if not sh:
            s = pre + 'char *s = STR; int main() { int i = 0; while (s[i]) { putchar(s[i]); i++; } putchar(10); out(N); return 0; }\n'
            t2 = diff.native(ck, t.name)
            t2.flags = ['-DSTR="a b$c"', '-DN=42']
            diff.check_source(ck, s, [t2], 'string macro of the command line', ref_flags=t2.flags)
            ck.count()
