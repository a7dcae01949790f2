"""C13: input and output functions, arguments and exit status."""
import os, random, re, shutil
from .. import cases, diff, probes, ref
from ..core import run

SPECIAL = b'\t\r\x0b\x0c\x07\x08 \\\'"`$*?[]{}()<>|&;!#%~=^-_/.,:@\x01\x1b\x7f'
ARGS = ['', 'a', 'hello world', '-n', '-e', '--', '$HOME', '`id`', '"', "'", '\\', '\\n', 'a\nb', '*', '  two  spaces ', '%s%d', '\t', '-', '!', '0', '-1', 'x' * 40, 'é', '#', '${x}', 'a;b', '&', '\\\\', "it's", '=', '[a-z]', '?', '{}', '~']

REF = r'''
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
static void __attribute__((constructor)) ref_unbuffered() { setvbuf(stdout, 0, _IONBF, 0); setvbuf(stdin, 0, _IONBF, 0); }
#ifdef REF_SH
static int ref_open(char *n, int f) { return open(n, f == 0 ? O_RDONLY : O_WRONLY | O_CREAT | (f == 1 ? O_TRUNC : O_APPEND), 511); }
#define open(n, f, m) ref_open(n, f)
#endif
'''


def data(rng, maxlen, yash, nul):
    """The contents of a file or of the standard input"""
    k = rng.random()
    if k < 0.06:
        return b''
    if k < 0.1:
        return rng.choice([b'\n', b'\n\n\n', b'a', b'a\n', b' ', b'\\', b'\\\n', b'\\\nx', b' \n ', b'\t\n', b'\r\n'])
    out = []
    n = 0
    while n < maxlen:
        l = rng.choice([0, 0, 1, 2, 3, 7, 15, 16, 17, 31, 32, 33, 60, 120, 255, 256, 257, 272, 511, 512, 513, 997, 998, 999, 1000, 1001, 1002, 1500, 1999, 2000, 2001, 2500])
        l = min(l, maxlen - n)
        style = rng.random()
        if style < 0.3:
            s = bytes(rng.choice(SPECIAL) for _ in range(l))
        elif style < 0.5:
            s = bytes(rng.randint(32, 126) for _ in range(l))
        elif style < 0.6:
            s = bytes([rng.choice(b' \\a-')]) * l
        else:
            s = bytes(rng.randint(0 if nul else 1, 127 if yash else 255) for _ in range(l))
        s = s.replace(b'\n', b'n')
        out.append(s)
        n += l + 1
        if rng.random() < 0.15:
            break
    r = b'\n'.join(out)
    if rng.random() < 0.6:
        r += b'\n'
    return r


class IO:
    """A random program of file operations"""

    def __init__(self, rng, t):
        self.rng, self.t = rng, t
        self.sh = bool(t.shells)
        self.mac = t.name == 'mac'     # failures of system calls are not tested (known finding of C27)
        self.yash = self.sh and 'yash' in t.shells
        self.files = {}
        self.names = ['in%d' % i for i in range(rng.randint(1, 3))]
        big = rng.random() < 0.25 and not (self.sh and 'mksh' in t.shells)    # mksh is slow at long lines
        for n in self.names:
            self.files[n] = data(rng, rng.choice([10, 60, 300] if not (self.sh and 'mksh' in t.shells) else [10, 40, 80]) if not big else rng.choice([1100, 2600, 5200]), self.yash, not self.sh and rng.random() < 0.5)
        self.outs = ['out%d' % i for i in range(rng.randint(1, 3))]
        self.budget = 600 if self.sh and 'mksh' in t.shells else 4000 if self.sh else 20000
        self.stdin = data(rng, rng.choice([0, 20, 100, 700 if not (self.sh and 'mksh' in t.shells) else 150]), self.yash, not self.sh and rng.random() < 0.5)
        # stdin is either read by getchar or by read
        self.stdin_by_read = rng.random() < 0.25
        self.args = [rng.choice(ARGS) for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 10, 11, 15]))] if rng.random() < 0.7 else []
        if self.yash:
            self.args = [a for a in self.args if a.isascii()]
        self.stats = {}

    def note(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def source(self):
        r = self.rng
        body = []
        fds = {}      # slot -> ('r'/'w', name)
        fps = {}
        wr, ap = ('1', '2') if self.sh else ('577', '1089')
        exist = dict((n, True) for n in self.names)
        busy_w = {}
        w = body.append
        for _ in range(r.randint(6, 34)):
            k = r.random()
            rd = [s for s, (m, n) in fds.items() if m == 'r']
            ww = [s for s, (m, n) in fds.items() if m == 'w']
            if k < 0.17 and len(fds) + len(fps) < 6:
                s = r.choice([i for i in range(6) if i not in fds])
                mode = r.choice('rrww')
                if mode == 'r':
                    can = [n for n in exist if n not in busy_w]
                    if not can:
                        continue
                    n = r.choice(can)
                    w('fd%d = open("%s", 0, 0); out(fd%d);' % (s, n, s))
                    self.note('open for reading')
                else:
                    # files being read are not written
                    can = [n for n in self.outs + self.names if n not in busy_w and not any(x[1] == n for x in list(fds.values())) and n not in fps.values()]
                    if not can:
                        continue
                    n = r.choice(can)
                    m = r.choice([wr, wr, ap])
                    w('fd%d = open("%s", %s, 511); out(fd%d);' % (s, n, m, s))
                    exist[n] = True
                    busy_w[n] = s
                    self.note('open for writing' if m == wr else 'open for appending')
                fds[s] = (mode, n)
            elif k < 0.27 and len(fds) + len(fps) < 6:
                s = r.choice([i for i in range(6) if i not in fps])
                can = [n for n in exist if n not in busy_w]
                if not can:
                    continue
                n = r.choice(can)
                w('fp%d = fopen("%s", "r");' % (s, n))
                fps[s] = n
                self.note('fopen')
            elif k < 0.42 and rd:
                s = r.choice(rd)
                c = r.choice([0, 1, 2, 5, 16, 63, 255, 256, 999, 1000, 1001, 3000][:11 if self.sh else 12])
                c = min(c, self.budget)
                self.budget -= c
                off = r.choice([0, 0, 0, 7])
                w('n = read(fd%d, buf%s, %d); out(n); show(buf%s, n);' % (s, ' + %d' % off if off else '', c, ' + %d' % off if off else ''))
                self.note('read')
            elif k < 0.56 and ww:
                s = r.choice(ww)
                if r.random() < 0.4:
                    t = bytes(r.choice([r.choice(SPECIAL), r.randint(32, 126), 10]) for _ in range(r.choice([0, 1, 3, 20, 60])))
                    lit = ''.join('\\n' if c == 10 else '\\t' if c == 9 else chr(c) if 32 <= c < 127 and chr(c) not in '"\\?' else '\\%03o' % c for c in t)
                    w('out(write(fd%d, "%s", %d));' % (s, lit, len(t)))
                elif r.random() < 0.5:
                    c = r.randint(1, 40)
                    w('fill(buf, %d, %d); out(write(fd%d, buf, %d));' % (c, r.randint(0, 255), s, c))
                else:
                    c = r.choice([1, 5, 30, 100])
                    w('out(write(fd%d, buf, %d));' % (s, c))
                self.note('write')
            elif k < 0.66 and fps:
                s = r.choice(list(fps))
                c = r.choice([1, 2, 5, 40, 300])
                c = min(c, self.budget)
                self.budget -= c
                w(r.choice(['for (i = 0; i < %d; i += 1) { c = fgetc(fp%d); put(c); } putchar(10);', 'i = 0; c = 0; while (i < %d && c != -1) { c = fgetc(fp%d); put(c); i += 1; } putchar(10);']) % (c, s))
                self.note('fgetc')
            elif k < 0.72 and fds:
                s = r.choice(list(fds))
                m, n = fds.pop(s)
                if m == 'w':
                    del busy_w[n]
                w('out(close(fd%d));' % s)
                self.note('close')
            elif k < 0.77 and fps:
                s = r.choice(list(fps))
                del fps[s]
                w('out(fclose(fp%d));' % s)
                self.note('fclose')
            elif k < 0.88:
                c = r.choice([1, 1, 2, 10, 80, 300])
                if self.stdin_by_read:
                    w('n = read(0, buf, %d); out(n); show(buf, n);' % c)
                    self.note('read of stdin')
                else:
                    w(r.choice(['for (i = 0; i < %d; i += 1) { c = getchar(); put(c); } putchar(10);', 'i = 0; c = 0; while (i < %d && c != -1) { c = getchar(); put(c); i += 1; } putchar(10);',
                                'i = %d; do { c = getchar(); put(c); i -= 1; } while (i > 0 && c != 10 && c != -1); putchar(10);']) % c)
                    self.note('getchar')
            elif k < 0.92:
                w('fill(buf, 5, %d); n = write(1, buf, 5); out(n);' % r.randint(0, 255))
                self.note('write on stdout')
            elif k < 0.95 and not self.sh and rd:
                s = r.choice(rd)
                w('out(lseek(fd%d, %d, %d));' % (s, r.choice([0, 0, 1, 5, 100]), r.choice([0, 0, 1, 2])))
                self.note('lseek')
            elif k < 0.97 and not self.sh:
                gone = [n for n in list(exist) if n not in busy_w and not any(x[1] == n for x in list(fds.values())) and n not in fps.values()]
                if gone and r.random() < 0.7:
                    n = r.choice(gone)
                    del exist[n]
                    w('out(unlink("%s"));' % n + ('' if self.mac else ' out(open("%s", 0, 0) < 0);' % n))
                elif not self.mac:
                    w('out(unlink("nothing") < 0); out(open("nothing", 0, 0) < 0); out(open("no/such", %s, 511) < 0);' % wr)
                self.note('unlink and missing files')
            elif k < 0.99 and not self.sh:
                can = [n for n in exist if n not in busy_w]
                if r.random() < 0.4 and can:
                    w('for (i = 0; i < 260; i += 1) many[i] = open("%s", 0, 0);' % can[0])
                    w('fp6 = fopen("%s", "r"); for (i = 0; i < 5; i += 1) put(fgetc(fp6)); fclose(fp6); out(read(many[259], buf, 4)); putchar(10);' % can[0])
                    w('for (i = 0; i < 260; i += 1) close(many[i]);')
                    self.note('files whose descriptor is larger than 255')
                elif not self.mac:
                    w('fp6 = fopen(".", "r"); put(fgetc(fp6)); put(fgetc(fp6)); fclose(fp6); out(fopen("nothing", "r") == 0);')
                    w('out(read(-1, buf, 3) < 0); out(write(-1, buf, 3) < 0); out(close(-1) < 0); out(lseek(-1, 0, 0) < 0); out(open("nothing", 0, 0) < 0); putchar(10);')
                    self.note('operations that fail')
            else:
                w('putchar(%d);' % r.randint(0, 255))
        if not self.sh and not self.mac and r.random() < 0.4:
            w('close(0); put(getchar()); put(getchar()); out(read(0, buf, 3) < 0); putchar(10);')
            self.note('getchar of a closed standard input')
        rc = r.choice([0, 0, 1, 2, 42, 98, 100, 126, 127, 128, 200, 255, 256, 300, 1000])
        if not self.sh:
            rc = r.choice([rc, -1, -5, 65535])
        for s in list(fds):
            if r.random() < 0.5:
                w('out(close(fd%d));' % s)
        end = r.choice(['return %d;', 'exit(%d); return 1;', 'leave(%d, 3); return 1;', 'if (n != 12345) { exit(%d); } return 1;', 'return 0;']) 
        end = end % rc if '%' in end else end
        # spread the body over functions
        funs, cur = [], []
        for b in body:
            cur.append(b)
            if r.random() < 0.15:
                funs.append(cur)
                cur = []
        s = 'char buf[%d];\n' % (1100 if self.sh else 4096) + ''.join('int fd%d;\nFILE *fp%d;\n' % (i, i) for i in range(6))
        s += '' if self.sh else 'FILE *fp6;\nint many[260];\n'
        s += '''int n; int i; int c;
void put(int c) { int d = c; if (d < 0) { putchar('-'); d = 0 - d; } if (d >= 100) { putchar('0' + d / 100); } if (d >= 10) { putchar('0' + d / 10 % 10); } putchar('0' + d % 10); putchar(' '); }
void show(char *b, int n) { int j = 0; while (j < n) { put(b[j] & 255); j += 1; } putchar(10); }
void fill(char *b, int n, int v) { int j = 0; while (j < n) { b[j] = FILLED; j += 1; } }
void leave(int code, int depth) { if (depth > 0) { leave(code, depth - 1); } else { exit(code); } }
'''
        # scripts do not read null bytes, and yash only reads valid characters
        s = s.replace('FILLED', '(v + j * 37) %% %d + 1' % (127 if self.yash else 255) if self.sh else '(v + j * 37) & 255')
        for i, f in enumerate(funs):
            s += 'void step%d() {\n  %s\n}\n' % (i, '\n  '.join(f))
        main = 'int main(int argc, char **argv) {\n  int a; char *p;\n'
        noargs = r.random() < 0.3
        if noargs:
            main = 'int main() {\n'
        first = 'for (i = 0; i < 4096; i += 1) { buf[i] = 65 + i % 26; }' if r.random() < 0.3 and not self.sh else 'for (i = 0; i < 200; i += 1) { buf[i] = 65 + i % 26; }'
        main += '  %s\n' % first
        if not noargs:
            self.note('arguments')
            main += '  out(argc);\n  for (a = 1; a < argc; a += 1) { p = argv[a]; n = 0; while (p[n]) { n += 1; } show(p, n); }\n'
        main += ''.join('  step%d();\n' % i for i in range(len(funs))) + '  ' + '\n  '.join(cur) + '\n  ' + end + '\n}\n'
        return s + main


def check_io(ck, p, what, flags=()):
    t = p.t
    pre = cases.SH_PRELUDE if p.sh else cases.NAT_PRELUDE
    body = p.source()
    src = pre + 'typedef int FILE;\n#include <unistd.h>\n#include <fcntl.h>\n' + body
    if p.mac:
        src = src.replace(', 577, 511)', ', 1537, 511)').replace(', 1089, 511)', ', 521, 511)')
    refsrc = REF + re.sub(r'#include.*\n', '', pre) + body

    def populate():
        d = ck.s.mkdir()
        for n, x in p.files.items():
            with open(os.path.join(d, n), 'wb') as f:
                f.write(x)
        return d

    def tree(d):
        return {n: open(os.path.join(d, n), 'rb').read() for n in sorted(os.listdir(d))}
    W = populate()
    x, r = ref.reference(ck, refsrc, stdin=p.stdin, args=p.args, flags=['-DREF_SH'] if p.sh else [], cwd=W)
    ck.count()
    if x is None:
        ck.unsure('%s: no reference: %r' % (what, r))
        return
    want = tree(W)
    f = ck.s.write(src, '.c')
    out, c = t.compile(f)
    if out is None:
        ck.violation('%s [%s]: the compiler fails: %r' % (what, t.name, c), {'input.c': src})
        return
    for sh in t.shells or [None]:
        d = populate()
        for n, y in t.runs(out, p.args, p.stdin, d, shells=[sh] if sh else None):
            if y.timeout:
                ck.unsure('%s: %s timed out' % (what, n))
                continue
            bad = diff.describe(x, y)
            have = tree(d)
            if not bad and have != want:
                k = [q for q in set(have) | set(want) if have.get(q) != want.get(q)]
                bad = 'contents of the files %s differ: %r instead of %r' % (k, have.get(k[0]), want.get(k[0]))
            ck.bump('executions_compared')
            ck.bump('trace_lines_compared', x.out.count(b'\n'))
            ck.bump('files_compared', len(want))
            if bad:
                ck.violation('%s [%s]: %s' % (what, n, bad), dict([('input.c', src), ('stdin', p.stdin), ('args', repr(p.args)), ('expected', x.out), ('compiled', open(out, 'rb').read())] +
                                                                 [('file-' + q, z) for q, z in p.files.items()]))
        shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(W, ignore_errors=True)
    for k, v in p.stats.items():
        ck.bump('use of ' + k, v)
    ck.seen(src)


def check(ck):
    ck.rule = 'distinct generated programs of file operations whose traces, exit status and final files were compared'
    ck.assumptions = ['gcc and glibc as the reference', 'no null byte in the input of scripts, and bytes below 128 under yash', 'files are not read and written at the same time']
    ts = [diff.sh(ck, ['dash', 'bash']), diff.native(ck, 'x86_64'), diff.sh(ck, ['ksh', 'mksh', 'zsh'], flags=['-DRT_COMPACT']), diff.native(ck, 'i386'),
          diff.sh(ck, ['dash', 'yash'], flags=['-DOPTIMIZE_LONG_LINES', '-DSH_SAVE_VARS_WITH_SET']), diff.sh(ck, ['bash', 'ksh'], flags=['-DOPTIMIZE_LONG_LINES'])]

    for t in ts:
        t.retry, t.timeout = False, 100

    def one(s):
        rng = random.Random('%d/io/%d' % (ck.seed, s))
        p = IO(rng, ts[s % len(ts)])
        check_io(ck, p, 'program %d' % s)
        if s == 0:
            ck.sample(repr(p.files) + repr(p.stdin))
    ck.pmap(one, range(ck.scale(160, 5000)))
    probes.run(ck)
