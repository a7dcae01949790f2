"""C19: what the compilers write is one well-formed executable, where it was asked for."""
import os, random, stat, subprocess
from .. import cases, corpus, diff, elfcheck, probes, ref
from ..core import base_env, run


def padded(rng, arch, n):
    """A program whose code and data have about n more bytes, and that reads all of them"""
    src = cases.NAT_PRELUDE + 'int sum(char *s, int n) { int r = 0; int i; for (i = 0; i < n; i++) { r = (r * 31 + s[i]) & 0xffffff; } return r; }\n'
    kinds, main = [], ''
    k = 0
    while n > 0:
        m = min(n, rng.randint(1, 2500))
        c = rng.choice('abcdefgh')
        if rng.random() < 0.5:
            src += 'char *p%d = "%s";\n' % (k, c * m)
            main += 'out(sum(p%d, %d)); ' % (k, m + 1)
        elif rng.random() < 0.6:
            src += 'int f%d(int x) { %s return x; }\n' % (k, 'x = x + 1; ' * (m // 12))
            main += 'out(f%d(%d)); ' % (k, k)
        else:
            src += 'char a%d[%d] = "%s";\n' % (k, m + rng.randint(1, 4000), c * min(m, 300))
            main += 'out(sum(a%d, %d)); a%d[%d] = 1; ' % (k, m + 1, k, m)
        n -= m
        k += 1
    return src + 'int main() { %s return %d; }\n' % (main, rng.choice([0, 0, 1, 77]))


def check(ck):
    ck.rule = 'distinct programs and destinations whose executables were read with the strict reader of ELF files, run and compared with the other destinations'
    ck.assumptions = ['the reader of elfcheck.py and the loader of the kernel decide what is an executable', 'stdout of gcc builds is the reference of the exit status of the programs']
    ts = [diff.native(ck, 'x86_64'), diff.native(ck, 'i386')]

    def one(s):
        rng = random.Random('%d/elf/%d' % (ck.seed, s))
        t = ts[s % 2]
        k = s // 2
        if k % 3 == 0:
            src = corpus.program(rng, t.name)
        else:
            src = padded(rng, t.name, 4096 * rng.randint(0, 6) + rng.choice([0, rng.randint(0, 4095), rng.randint(-300, 300)]))
        f = ck.s.write(src, '.c')
        x, r = ref.reference(ck, src, path=f)
        if x is None:
            ck.unsure('no reference: %r' % r)
            return
        r = run([t.exe, f], timeout=30)
        ck.count()
        if r.rc or r.timeout or r.err:
            ck.violation('the compiler fails [%s]: %r' % (t.name, r), {'input.c': src})
            return
        pr, eo = elfcheck.check(r.out, t.name)
        ck.bump('bytes of executables read', len(r.out))
        ck.seen(t.name, len(r.out))
        if pr:
            ck.violation('malformed executable [%s]: %s' % (t.name, '; '.join(pr)), {'input.c': src, 'executable': r.out})
            return
        e = ck.s.write(r.out, '.exe')
        os.chmod(e, 0o755)
        y = run([e])
        d = diff.describe(x, y)
        if d and t.name == 'i386':
            # programs that print the size of their types
            z, _ = ref.reference32(ck, src)
            d = d if z is None else diff.describe(z, y)
        if d:
            ck.violation('the executable of stdout [%s]: %s' % (t.name, d), {'input.c': src, 'executable': r.out})
        os.unlink(e)
        W = ck.s.mkdir()
        for _ in range(2):
            destination(ck, rng, t, f, r.out, W, src)
        if s == 1:
            ck.sample(src)
    ck.pmap(one, range(ck.scale(300, 6000)))
    for t in ts:
        sizes(ck, t)
    for t in ts + [diff.sh(ck)]:
        failures(ck, t)
    probes.run(ck)


KINDS = ['new', 'attached', 'longer', 'executable', 'same', 'symlink', 'hardlink', 'path', 'before', 'pipe', 'append', 'fd', 'closed', 'cwd', 'dash']


def destination(ck, rng, t, f, exp, W, src):
    """The same bytes arrive at every kind of destination, and only there"""
    k = rng.choice(KINDS)
    o = os.path.join(W, 'o%d' % rng.randrange(10 ** 9))
    args, kw, check_stdout = [t.exe, f, '-o', o], {}, True
    keep = None
    if k == 'attached':
        args = [t.exe, f, '-o' + o]
    elif k == 'longer':
        open(o, 'wb').write(bytes(rng.randrange(256) for _ in range(200)) * 1000)
    elif k == 'executable':
        open(o, 'wb').write(b'x')
        os.chmod(o, 0o755)
    elif k == 'same':
        open(o, 'wb').write(exp[:rng.randint(0, len(exp))])
    elif k == 'symlink':
        open(o + '-t', 'wb').write(b'y' * 100000)
        os.symlink(o + '-t', o)
    elif k == 'hardlink':
        open(o + '-t', 'wb').write(b'y' * 100000)
        os.link(o + '-t', o)
    elif k == 'path':
        os.makedirs(W + '/a b/c;d', exist_ok=True)
        o = W + '/a b/c;d/' + os.path.basename(o) + '*'
        args = [t.exe, '-o', o, f]
    elif k == 'before':
        args = [t.exe, '-o', o, f]
    elif k == 'cwd':
        args = [t.exe, f, rng.choice(['-o', '-o./']) + os.path.basename(o)]
        kw['cwd'] = W
    elif k == 'dash':
        args = [t.exe, f, '-o', '-n%s' % os.path.basename(o)]
        kw['cwd'] = W
        o = W + '/-n' + os.path.basename(o)
    ck.bump('destination ' + k)
    if k in ('pipe', 'append', 'fd', 'closed'):
        # the standard output is a pipe with a slow reader, a file opened for appending, a file at an offset, with stdin closed
        if k == 'pipe':
            r = run(['sh', '-c', '"$1" "$2" | { sleep 0.05; head -c 1; sleep 0.05; cat; }', 'sh', t.exe, f], timeout=30)
            got = r.out
        elif k == 'append':
            open(o, 'wb').write(b'abc')
            r = run(['sh', '-c', '"$1" "$2" >> "$3"', 'sh', t.exe, f, o], timeout=30)
            got = open(o, 'rb').read()
            exp = b'abc' + exp
        elif k == 'fd':
            r = run(['sh', '-c', '{ echo a; "$1" "$2"; echo b; } > "$3"', 'sh', t.exe, f, o], timeout=30)
            got = open(o, 'rb').read()
            exp = b'a\n' + exp + b'b\n'
        else:
            r = run(['sh', '-c', '"$1" "$2" <&-', 'sh', t.exe, f], timeout=30)
            got = r.out
    else:
        before = set(os.listdir(W))
        r = run(args, timeout=30, **kw)
        try:
            got = open(o, 'rb').read()
        except OSError as e:
            got = repr(e).encode()
        if r.out:
            ck.violation('stdout with -o is not empty [%s, %s]: %r' % (t.name, k, r.out[:200]), {'input.c': src})
        new = set(os.listdir(W)) - before - {os.path.basename(o)}
        if new:
            ck.violation('files other than the output are created [%s, %s]: %r' % (t.name, k, new), {'input.c': src})
        if k in ('new', 'attached', 'before'):
            m = stat.S_IMODE(os.stat(o).st_mode) if os.path.exists(o) else 0
            if m & 0o600 != 0o600 or m & 0o022:
                ck.violation('the permissions of the output are %o [%s]' % (m, t.name), {'input.c': src})
    ck.count()
    if r.timeout:
        ck.unsure('%s: timeout' % k)
    elif r.rc or r.err:
        ck.violation('the compiler fails with the destination %s [%s]: %r' % (k, t.name, r), {'input.c': src})
    elif got != exp:
        i = next((i for i, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp)))
        ck.violation('the output differs with the destination %s [%s]: %d bytes instead of %d, first difference at %d' % (k, t.name, len(got), len(exp), i), {'input.c': src, 'got': got, 'expected': exp})


def sizes(ck, t):
    """The size of the file takes every value around multiples of the page, and globals of all sizes work"""
    base = cases.NAT_PRELUDE + 'char *s = "%s"; int main() { int i = 0; while (s[i]) { i++; } out(i); return 0; }\n'
    n0 = len(run([t.exe, ck.s.write(base.replace('%s', ''), '.c')], timeout=30).out)

    def one(n):
        # n is the size wanted
        f = ck.s.write(base.replace('%s', 'q' * (n - n0)), '.c')
        r = run([t.exe, f], timeout=30)
        ck.count()
        if r.rc:
            ck.violation('a string of %d characters [%s]: %r' % (n - n0, t.name, r), {'input.c': base.replace('%s', 'q' * (n - n0))})
            return
        pr, _ = elfcheck.check(r.out, t.name)
        e = ck.s.write(r.out, '.exe')
        os.chmod(e, 0o755)
        y = run([e])
        os.unlink(e)
        ck.seen(t.name, 'size', len(r.out))
        if pr or y.rc or y.out != b'%d\n' % (n - n0) or y.err:
            ck.violation('executable of %d bytes [%s]: %s %r' % (len(r.out), t.name, '; '.join(pr), y), {'input.c': base.replace('%s', 'q' * (n - n0)), 'executable': r.out})
    ck.pmap(one, sorted(set([4096 * k + d for k in (1, 2, 3) for d in ([-9, -2, -1, 0, 1, 2, 9] if not ck.thorough else range(-120, 121)) if 4096 * k + d >= n0] + [n0 + i for i in range(16)])))

    def big(n):
        src = cases.NAT_PRELUDE + 'char a[%d]; int b; int main() { int i; b = 5; out(a[0] + a[%d]); a[0] = 1; a[%d] = 2; out(a[0] + a[%d] * 10 + b * 100); for (i = 0; i < %d; i += 1000) { a[i] = i; } out(a[%d] + b); return 0; }\n' % (
            n, n - 1, n - 1, n - 1, n, max(0, (n // 1000 - 1) * 1000))
        diff.check_source(ck, src, [t], 'a global array of %d bytes' % n)
        ck.count()
        ck.seen(t.name, 'global', n)
    ck.pmap(big, [1, 2, 3, 4095, 4096, 4097, 65535, 65536, 1 << 20, 5000001, 8 << 20, (8 << 20) + 1, 100 << 20])


def failures(ck, t):
    """What cannot be done is reported by the exit status and a message, and leaves no executable"""
    W = ck.s.mkdir()
    sh = bool(t.shells)
    pre = cases.SH_PRELUDE if sh else cases.NAT_PRELUDE
    good, bad, late = W + '/good.c', W + '/bad.c', W + '/late.c'
    open(good, 'w').write(pre + 'int main() { out(1); return 0; }\n')
    open(bad, 'w').write('int main( { return 0; }\n')
    open(late, 'w').write(pre + 'int main() { out(1); return 0; }\nint f() { return (; }\n')
    os.mkdir(W + '/dir')
    C = [([], 'no input'), ([W + '/missing.c'], 'missing input'), ([good, W + '/missing.c'], 'second input missing'), (['-q', good], 'unknown option'), (['--help', good], 'unknown option'),
         ([good, '-'], 'unknown option -'), ([good, '-I', '/a/', '-I', '/b/'], 'two include directories'), ([good, '-I'], 'missing argument of -I'), ([good, '-U'], 'missing argument of -U'),
         ([bad], 'syntax error'), ([late], 'late syntax error'), ([''], 'empty name')]
    if not sh:
        C += [([good, '-o'], 'missing argument of -o'), ([good, '-D'], 'missing argument of -D'), ([good, '-o', W + '/dir'], 'output is a directory'), ([good, '-o', W + '/no/such/out'], 'output in a missing directory'),
              ([good, '-o', ''], 'empty output name'), ([bad, '-o', W + '/out1'], 'syntax error with -o'), ([late, '-o', W + '/out2'], 'late syntax error with -o'),
              ([good, '-DX=a'], 'invalid value of -D'), ([good, '-DX=1a'], 'invalid value of -D'), ([good, '-DX="a'], 'unterminated string of -D'), ([good, '-o', '/dev/full'], 'full output device')]
    for args, what in C:
        ck.count()
        ck.seen(t.name, what)
        r = run([t.exe] + args, timeout=30, cwd=W)
        if r.timeout or r.rc != 1 or r.san():
            ck.violation('%s [%s]: exit status %d instead of 1: %r' % (what, t.name, r.rc, r), {'arguments': repr(args)})
        elif not r.out and '/dev/full' not in args:
            ck.violation('%s [%s]: no message' % (what, t.name), {'arguments': repr(args)})
        for n in os.listdir(W):
            if n.startswith('out') and open(W + '/' + n, 'rb').read(4) == b'\x7fELF':
                ck.violation('%s [%s]: an executable was written' % (what, t.name), {'arguments': repr(args)})
    # the standard output
    for how, what in [('>/dev/full', 'full standard output'), ('>&-', 'closed standard output')]:
        ck.count()
        ck.seen(t.name, what)
        r = run(['sh', '-c', '"$1" "$2" ' + how, 'sh', t.exe, good], timeout=30)
        if r.rc == 0:
            ck.violation('%s [%s]: exit status 0' % (what, t.name), {'arguments': how}, key='sh-' + what.replace(' ', '-') if sh else None)
