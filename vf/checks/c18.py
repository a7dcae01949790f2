"""C18: the output of the compilers depends only on their inputs, and the programs they write do not depend on their environment."""
import os, random, re, shutil, subprocess
from .. import cases, corpus, diff, probes, progs, ref
from ..core import SHELLS, base_env, run

JUNK = ['junk', '7', '-1', '', 'a b', '$(kill $$)', '`exit 9`', '*', "'", '"', '0x', '08', '1+', '\\', '99999999999999999999', 'x[1]', '#', '_1', '/']
# parameters that the shells themselves give a meaning to; they cannot be set in the environment, or not without effects
SPECIAL = set('IFS PATH HOME ENV BASH_ENV PPID PWD OLDPWD OPTIND OPTARG LINENO RANDOM SECONDS UID EUID GID EGID SHELL SHELLOPTS BASHOPTS LC_ALL LANG FPATH MODULE_PATH ZDOTDIR status argv path histchars TMOUT LINES COLUMNS KEYBD_TRAP'.split())
NAMES = ['a', 'b', 'i', 'n', 'x', 'argc', 'argv_', '__c', '__i', '__fd', '__ALLOC', '__FREE', '__STATE', '__buf', '__ptr', '__str', '__t1', '__t2', '__SP', '__fp', '__0', '__CHAR', '__code', '__argc_for_main', '__file', 'POSIXLY_CORRECT', 'CDPATH',
         'PS1', 'PS4', 'OPTIND', 'TERM', 'NULL', 'EOF', 'CC', 'CFLAGS', 'C_INCLUDE_PATH', 'CPATH', 'TMPDIR', 'PNUT', 'INCLUDE', 'DEBUG', 'sh', 'target', 'TZ']
FILES = ['*', '?', '-n', '-', '0', '1', '2', '3', '7', '[', 'a', 'b', 'printf', 'read', 'set', 'test', ':', '_1', '_main', 'let', 'stdin', 'a.c', 'stdio.h', 'stdlib.h', 'main.h', '~', '1+1', '=', 'b c']


def check(ck):
    ck.rule = 'distinct (program, environment) pairs for which the compiler or its output was run and compared with a run in a plain environment'
    ck.assumptions = ['variables named _ and digits, IFS, PATH and the variables reserved by a shell are excluded: they are the memory of the script, and its interpreter', 'PATH is needed by mksh and yash, where printf and [ are not always builtin']
    polluted = ck.s.mkdir()
    for n in FILES:
        open(os.path.join(polluted, n), 'w').write('#error no\nexit 9\n')
    compiler(ck, polluted)
    system_calls(ck)
    scripts(ck, polluted)
    executables(ck, polluted)
    probes.run(ck)


def junk_env(rng, names):
    e = {n: rng.choice(JUNK) for n in names if n not in SPECIAL}
    return e


# -- the compiler ------------------------------------------------------------------------------
BUILDS = [dict(cc='gcc', opt='-O0'), dict(cc='gcc', opt='-O2'), dict(cc='clang', opt='-O0'), dict(cc='clang', opt='-O2')]
VARIANTS = ['env', 'noenv', 'cwd', 'relative', 'symlink', 'stdin', 'perturb', 'nostdin', 'fds', 'dots', 'locale', 'stack', 'optional', 'again', 'place', 'place']


INCLUDED = ['part.h', 'part2.h', 'sub/part.h', 'sub/deeper/part3.h', 'stdio_.h', 'a.h']


def split(rng, src, W):
    """Moves lines of a program to included files, in W"""
    names = list(INCLUDED)
    rng.shuffle(names)

    def move(lines, base, depth):
        for _ in range(rng.randint(1, 2)):
            if not names or len(lines) < 4 or depth > 3:
                break
            n = names.pop()
            i = rng.randrange(len(lines))
            j = rng.randint(i + 1, len(lines))
            path = os.path.join(W, n)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            inner = move(lines[i:j], os.path.dirname(n), depth + 1)
            open(path, 'wb').write(''.join(inner).encode('latin-1'))
            lines = lines[:i] + ['#include "%s"\n' % os.path.relpath(n, base or '.')] + lines[j:]
        return lines
    return ''.join(move(src.splitlines(True), '', 0))


def compiler(ck, polluted):
    for n in INCLUDED:
        os.makedirs(os.path.dirname(os.path.join(polluted, n)), exist_ok=True)
        open(os.path.join(polluted, n), 'w').write('int vf_decoy = 1;\n')
    dialects = [('sh', ('-Dsh', '-DRT_NO_INIT_GLOBALS')), ('sh', ('-DRELEASE_PNUT_SH',)), ('x86_64', ('-Dtarget_x86_64_linux',)), ('i386', ('-Dtarget_i386_linux',)), ('x86_64', ('-Dtarget_x86_64_mac',))]
    ck.build_all([((fl), dict(b)) for _, fl in dialects for b in BUILDS] + [(fl + ('-funsigned-char',), {}) for d, fl in dialects if d == 'sh'])

    def out(exe, args, sh, o, **kw):
        if sh:
            r = run([exe] + args, timeout=30, **kw)
            return r, r.out
        if os.path.exists(o):
            os.unlink(o)
        r = run([exe] + args + ['-o', o], timeout=30, **kw)
        return r, (open(o, 'rb').read() if os.path.exists(o) else b'') + r.out

    def one(s):
        rng = random.Random('%d/compiler/%d' % (ck.seed, s))
        dialect, fl = dialects[s % len(dialects)]
        sh = dialect == 'sh'
        src = corpus.program(rng, dialect)
        k = rng.random()
        if k < 0.35:
            src = corpus.mutate(rng, src)
        elif k < 0.5:
            src = corpus.mutate(rng, open(rng.choice(corpus.repo_sources()), encoding='latin-1').read(), rng.choice([0, 1, 2]))
        W = ck.s.mkdir()
        f = W + '/input.c'
        whole = src
        if rng.random() < 0.6:
            src = split(rng, src, W)
        open(f, 'wb').write(src.encode('latin-1'))
        plain = ck.build(*fl, **BUILDS[0])
        o = W + '/output'
        r0, x0 = out(plain, [f], sh, o)
        if r0.timeout:
            ck.unsure('timeout')
            return
        tests = [('build %r' % b, ck.build(*fl, **b), [f], {}) for b in BUILDS[1:]] + [('build with ' + x, ck.build(*(fl + (x,))), [f], {}) for x in ('-funsigned-char',) if sh]
        filepath = '__FILE__' in whole
        for v in set(rng.sample(VARIANTS, 6)):
            e, a, kw = ck.build(*fl, **rng.choice(BUILDS)), [f], {}
            if v == 'env':
                ns = set(NAMES) | set(re.findall(r'[A-Za-z_]\w*', src)[:400])
                kw['env'] = dict(junk_env(rng, ns), PATH='/usr/bin')
            elif v == 'noenv':
                kw['env'] = {}
            elif v == 'cwd':
                kw['cwd'] = polluted
            elif v == 'relative':
                a, kw['cwd'] = ['input.c'], W
            elif v == 'dots':
                a = ['%s/../%s/./input.c' % (W, os.path.basename(W))]
            elif v == 'place':
                # the same files, elsewhere and under other names; the files of the working directory have the names of the included ones
                d = ck.s.mkdir() + '/' + rng.choice(['x', 'a b', 'input.c', '-', 'dir.h', 'd' * 100, '*'])
                shutil.copytree(W, d)
                a = [d + '/' + rng.choice(['other.c', 'x', 'no extension', 'a.c.c'])]
                os.rename(d + '/input.c', a[0])
                kw['cwd'] = rng.choice([polluted, d, d + '/..', '/'])
                if rng.random() < 0.5:
                    a = [os.path.relpath(a[0], kw['cwd'])]
                    if a[0][0] == '-':
                        a[0] = './' + a[0]
            elif v == 'symlink':
                l = W + '/link.c'
                if not os.path.exists(l):
                    os.symlink(f, l)
                a = [l]
            elif v == 'stdin':
                kw['stdin'] = b'int main() { return 1; }\n' * 100
            elif v == 'perturb':
                kw['extra_env'] = {'MALLOC_PERTURB_': str(rng.randint(1, 255))}
            elif v == 'nostdin':
                a, e = ['-c', 'exec "$@" <&-', 'sh', e, f], '/bin/sh'
            elif v == 'fds':
                a, e = ['-c', 'exec "$@" 3</dev/null 4</dev/null 7>/dev/null', 'sh', e, f], '/bin/sh'
            elif v == 'locale':
                kw['extra_env'] = {'LC_ALL': rng.choice(['C', 'POSIX', 'en_US.UTF-8', 'tr_TR', 'ja_JP.SJIS'])}
            elif v == 'stack':
                a, e = ['-c', 'ulimit -s %d; exec "$@"' % rng.choice([16000, 65000, 200000]), 'sh', e, f], '/bin/sh'
            elif v == 'optional':
                # options that define or remove macros the program does not use
                a = [f, '-DVF_UNUSED', '-UVF_UNUSED2', '-DVF_UNUSED3'] if rng.random() < 0.5 else ['-DVF_UNUSED', f]
            tests.append((v, e, a, kw))
        for what, e, a, kw in tests:
            if filepath and a != [f]:
                continue
            r, x = out(e, a, sh, o, **kw)
            ck.count()
            ck.bump('compilations compared: ' + ('builds' if what.startswith('build') else what))
            if r.timeout or r.rc < 0 and what == 'stack':
                ck.unsure('timeout')
                continue
            y0 = x0
            if r0.rc and a != [f]:
                x = y0 = b''  # the messages name the files
            if r.rc != r0.rc or x != y0 or r.err:
                i = next((i for i, (c, d) in enumerate(zip(x, y0)) if c != d), min(len(x), len(y0)))
                ck.violation('the output of %s depends on: %s (exit status %d and %d; %d and %d bytes, first difference at %d: %r, %r; stderr %r)' % (
                    ' '.join(fl), what, r0.rc, r.rc, len(y0), len(x), i, y0[i:i + 60], x[i:i + 60], r.err[-200:]), dict([('input.c', src), ('output-plain', x0), ('output', x)] + [(n.replace('/', '+'), open(os.path.join(W, n), 'rb').read()) for n in INCLUDED if os.path.exists(os.path.join(W, n))]))
                break
        ck.seen('compiler', src, fl)
        if s == 0:
            ck.sample(src)
        shutil.rmtree(W, ignore_errors=True)
    ck.pmap(one, range(ck.scale(250, 6000)))


OPEN = re.compile(r'^(?:\[pid +\d+\] |\d+ +)?(open|openat|creat|unlink|rename|mkdir|symlink|link|chmod|execve|fork|vfork|clone3?|socket|connect|kill)\((.*)$')


def system_calls(ck):
    """The compilers open their inputs, and nothing else; they start no process"""
    for fl in (('-Dsh',), ('-Dtarget_x86_64_linux',), ('-Dtarget_i386_linux',), ('-Dtarget_x86_64_mac',)):
        sh = fl == ('-Dsh',)
        exe = ck.build(*fl, **BUILDS[0])
        for s in range(ck.scale(6, 60)):
            rng = random.Random('%d/sys/%r/%d' % (ck.seed, fl, s))
            W = ck.s.mkdir()
            src = corpus.program(rng, 'sh' if sh else 'i386' if 'i386' in fl[0] else 'x86_64')
            if s % 3 == 2:
                src = corpus.mutate(rng, src)
            os.mkdir(W + '/sub')
            open(W + '/inc.h', 'w').write('#include "sub/deep.h"\n')
            open(W + '/sub/deep.h', 'w').write('int vf_deep;\n')
            open(W + '/sub/unused.h', 'w').write('int vf_unused;\n')
            open(W + '/m.c', 'wb').write(('#include "inc.h"\n#if 0\n#include "sub/unused.h"\n#endif\n#ifdef NOT\n#include "missing.h"\n#endif\n' + src).encode('latin-1'))
            r = run(['strace', '-f', '-qq', '-e', 'trace=file,process,network', '-o', W + '/trace', exe, 'm.c'] + ([] if sh else ['-o', 'out']), cwd=W, timeout=60)
            if not os.path.exists(W + '/trace') or b'ptrace' in r.err:
                ck.bump('strace not available')
                return
            ck.count()
            ck.seen('sys', src, fl)
            started = False
            opened = set()
            for l in open(W + '/trace', encoding='latin-1'):
                m = OPEN.match(l)
                if not m:
                    continue
                if m.group(1) == 'execve' and not started:
                    started = True
                    continue
                if m.group(1) in ('open', 'openat'):
                    n = re.search(r'"((?:\\.|[^"\\])*)"', m.group(2)).group(1)
                    if n.startswith(('/etc/ld.so', '/lib', '/usr/lib', '/proc/', '/sys/')):
                        continue
                    ck.bump('files opened by the compiler')
                    wr = 'O_WRONLY' in m.group(2) or 'O_RDWR' in m.group(2)
                    opened.add((os.path.normpath(n), wr))
                else:
                    opened.add((m.group(1), True))
            allowed = {('m.c', False), ('inc.h', False), ('sub/deep.h', False)} | (set() if sh else {('out', True)})
            bad = opened - allowed
            # mutated programs may name other files
            if bad and s % 3 != 2:
                ck.violation('the compiler %s uses %r' % (' '.join(fl), sorted(bad)), {'input.c': src})
            if s % 3 != 2 and not allowed <= opened:
                ck.violation('the compiler %s does not open %r' % (' '.join(fl), sorted(allowed - opened)), {'input.c': src})


# -- the scripts -------------------------------------------------------------------------------
SV = ['env', 'env', 'env', 'noenv', 'cwd', 'nopath', 'locale', 'umask', 'fds', 'args', 'name', 'stdin']


def scripts(ck, polluted):
    t = diff.sh(ck, SHELLS, flags=[])
    t2 = diff.sh(ck, SHELLS)
    t2.exe = ck.build('-DRELEASE_PNUT_SH', san=True)
    io = cases.SH_PRELUDE + 'int main() { int c = getchar(); int n = 0; while (c != -1) { putchar(c); n = n * 31 + c & 65535; c = getchar(); } out(n); return n & 63; }\n'

    def one(s):
        rng = random.Random('%d/script/%d' % (ck.seed, s))
        src = corpus.program(rng, 'sh', small=s % 3 != 0) if s % 8 else io
        T = t2 if s % 2 and src != io and 'rt_init' not in src else t
        f = ck.s.write(src, '.c')
        out, r = T.compile(f)
        if out is None:
            ck.unsure('compilation: %r' % r)
            return
        script = open(out, 'rb').read()
        sh = SHELLS[(s // 2) % 6]
        stdin = b'a b\\c*\n $x `y` "q"\n\tlast' if src == io else b''
        r0 = run([sh, out], stdin=stdin, timeout=60)
        if r0.timeout or r0.err:
            # with RT_NO_INIT_GLOBALS, uninitialized arrays have no value
            ck.bump('uninitialized') if r0.err else ck.unsure('timeout')
            return
        names = set(n for n in re.findall(r'[A-Za-z_]\w*', script.decode('latin-1')) if not re.match(r'_\d+$|__str_|LC_', n)) | set(NAMES)
        names -= set(re.findall(r'defstr (\w+)', script.decode('latin-1')))
        # names that are also names of programs or keywords of the shell stay, as they are ordinary variables
        for v in rng.sample(SV, 3):
            cmd, kw = [sh, out], {}
            if v == 'env':
                e = junk_env(rng, names)
                e['PATH'] = '/usr/bin:/bin'
                kw['env'] = e
            elif v == 'noenv':
                kw['env'] = {'PATH': '/usr/bin:/bin'}
            elif v == 'cwd':
                kw['cwd'] = polluted
            elif v == 'nopath':
                if sh in ('mksh', 'yash'):
                    continue
                kw['extra_env'] = {'PATH': '/nonexistent'}
                cmd[0] = shutil.which(sh)
            elif v == 'locale':
                kw['extra_env'] = {'LC_ALL': rng.choice(['C', 'POSIX', 'C.UTF-8', 'C.utf8'])}
            elif v == 'umask':
                cmd = ['/bin/sh', '-c', 'umask 777; exec "$@"', 'sh'] + cmd
            elif v == 'fds':
                cmd = ['/bin/sh', '-c', 'exec "$@" 3</dev/null 5>/dev/null 9</dev/null', 'sh'] + cmd
            elif v == 'args':
                cmd += rng.choice([['a'], ['-x', '*', ''], ['1', '2', '3', '4', '5', '6', '7', '8', '9', '10', '11'], ['--', '$x', "'", '\\']])
            elif v == 'name':
                n = ck.s.path('') + rng.choice([' b.sh', '*', '$x', "'q", '-n'])
                shutil.copy(out, n)
                cmd = [sh, n]
            elif v == 'stdin':
                if src == io:
                    continue
                kw['stdin'] = b'echo no\nexit 5\n' * 50
            r = run(cmd, timeout=60, **dict({'stdin': stdin}, **kw))
            ck.count()
            ck.bump('scripts run with: ' + v)
            if r.timeout:
                ck.unsure('timeout')
            elif (r.rc, r.out) != (r0.rc, r0.out) or r.err != r0.err:
                files = {'input.c': src, 'script': script, 'plain': repr(r0), 'run': repr(r), 'environment': repr(kw)}
                ck.violation('a script depends on %s [%s]: %r instead of %r' % (v, sh, r, r0), files)
                return
        ck.seen('script', src, sh)
    ck.pmap(one, range(ck.scale(260, 5000)))


# -- the executables ---------------------------------------------------------------------------
def executables(ck, polluted):
    ts = [diff.native(ck, 'x86_64'), diff.native(ck, 'i386')]

    def one(s):
        rng = random.Random('%d/exe/%d' % (ck.seed, s))
        t = ts[s % 2]
        src = corpus.program(rng, t.name)
        out, r = t.compile(ck.s.write(src, '.c'))
        if out is None:
            ck.unsure('compilation: %r' % r)
            return
        r0 = run([out], timeout=20)
        for v in ('env', 'noenv', 'args', 'cwd', 'fds', 'name', 'noargs'):
            kw, cmd = {}, [out]
            if v == 'env':
                kw['env'] = dict({'V%d' % i: 'x' * rng.randint(0, 3000) for i in range(rng.randint(1, 200))})
            elif v == 'noenv':
                kw['env'] = {}
            elif v == 'args':
                cmd += ['y' * rng.randint(0, 200) for _ in range(rng.randint(1, 300))]
            elif v == 'cwd':
                kw['cwd'] = polluted
            elif v == 'fds':
                cmd = ['/bin/sh', '-c', 'exec "$@" <&- 3</dev/null 9</dev/null', 'sh', out]
            elif v == 'name':
                n = ck.s.path('z' * rng.randint(1, 100))
                os.link(out, n)
                cmd = [n]
            else:
                cmd = ['/usr/bin/python3', '-c', 'import os, sys\nos.execve(sys.argv[1], ["-"], {})', out]
            r = run(cmd, timeout=20, **kw)
            ck.count()
            ck.bump('executables run with: ' + v)
            if (r.rc, r.out, r.err) != (r0.rc, r0.out, r0.err) and not r.timeout:
                ck.violation('an executable depends on %s [%s]: %r instead of %r' % (v, t.name, r, r0), {'input.c': src, 'executable': open(out, 'rb').read()})
                return
        ck.seen('exe', src, t.name)
    ck.pmap(one, range(ck.scale(120, 3000)))
