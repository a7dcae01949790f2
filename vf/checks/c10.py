"""C10: programs outside the language are rejected."""
import random, re
from .. import corpus, probes, rejected
from ..core import run

B = {'sh': [['-Dsh'], ['-DRELEASE_PNUT_SH'], ['-Dsh', '-DSAFE_MODE']], 'x86_64': [['-Dtarget_x86_64_linux'], ['-DRELEASE_PNUT_x86_64_linux']], 'i386': [['-Dtarget_i386_linux'], ['-DRELEASE_PNUT_i386_linux', '-DSAFE_MODE']],
     'mac': [['-DRELEASE_PNUT_x86_64_mac']]}


class Wrap:
    """A function with a statement at a random place"""

    def __init__(self, rng, sh, loops):
        self.rng, self.sh, self.loops, self.n = rng, sh, loops, 0

    def simple(self, d):
        r = self.rng
        k = r.random()
        if d and k < 0.5:
            return self.wrap(self.simple(0), d - 1, True)
        return r.choice(['vf_v = vf_v + 1;', 'vf_v = vf0(vf_v) * 2;', 'varr[1] = vf_v;', 'if (vf_v > 100) vf_v = 0;', 'vf_s->va_x = vf_v;', ';', 'while (vf_v < 3) { vf_v++; if (vf_v == 2) continue; if (vf_v == 7) break; }',
                         'for (vf_v = 0; vf_v < 3; vf_v++) { if (vf_v == 2) break; }', 'do { vf_v--; if (vf_v == 2) continue; } while (vf_v > 0);',
                         'switch (vf_v) { case 1: vf_v = 2; break; case 2: case VE2: vf_v = 4; break; default: vf_v = 3; break; }', 'vf_v += sizeof(int);', 'vf_p = vp0(vf_p);', '{ }', '/* c */ ;', 'vf_v = vf_v ? 1 : 2;'])

    def wrap(self, s, d, loops):
        if d == 0:
            if s.startswith('else'):
                s = '{ } ' + s
            # a statement that lacks its semicolon is not followed by another one
            return s if s.rstrip().endswith((';', '}')) else s + ' vf_v = 1;'
        r = self.rng
        s = self.wrap(s, d - 1, loops)
        a, b = self.simple(0), self.simple(0)
        l = ['if (vf_v > 2) { %s }' % s, 'if (vf_v > 2) { %s } else { %s %s }' % (a, b, s), 'if (vf_v) { %s } else if (vf_v > 1) { %s } else { %s }' % (a, s, b), '{ %s %s }' % (a, s), '%s\n  %s\n  %s' % (a, s, b), 'if (vf_v == 4) { %s %s } %s' % (a, s, b)]
        if loops:
            l += ['while (vf_v < 9) { vf_v++; %s %s }' % (s, a), 'for (vf_v = 0; vf_v < 9; vf_v++) { %s %s }' % (a, s), 'do { %s %s } while (vf_v < 0);' % (s, a)]
            if not self.sh:
                l += ['switch (vf_v) { case 1: %s break; case 2: %s %s break; default: %s }' % (a, b, s, b)]
        return r.choice(l)

    def function(self, s):
        r = self.rng
        return 'int vf_f(int vf_q) {\n  int vf_v;\n  int *vf_p;\n  struct VA *vf_s;\n  vf_v = vf_q; vf_p = 0; vf_s = 0;\n  %s\n  return vf_v;\n}' % self.wrap(s, r.randint(0, 3), self.loops)


def quotes(t):
    return t.count('"') - t.count('\\"') - 2 * t.count("'\"'")


def place(rng, src, text):
    """The text before a declaration of the program, outside of the groups of the preprocessor"""
    L = src.split('\n')
    ok = [i for i in range(1, len(L)) if re.match(r'(int|void|char)\b', L[i]) and not L[i - 1].endswith('\\') and len(re.findall(r'(?m)^\s*#\s*if', '\n'.join(L[:i]))) == len(re.findall(r'(?m)^\s*#\s*endif', '\n'.join(L[:i])))
          and '/*' not in L[i - 1] and L[i - 1].rstrip().endswith((';', '}')) and not L[i - 1].startswith('#')]
    i = rng.choice(ok) if ok else 0
    return '\n'.join(L[:i] + [rejected.PRE + text] + L[i:]), '\n'.join(L[i:])


TOK = re.compile(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|/\*.*?\*/|//[^\n]*|\w+|<<=|>>=|<<|>>|[-+*/%&|^<>=!]=|&&|\|\||\+\+|--|->|\s+|.', re.S)
# what pnut reads more liberally than C: the lists of parameters of functions and macros, and the names of types
LENIENT = re.compile(r'expected parameter name|expected [‘\'],[’\'] or [‘\']\)[’\']|expected ‘;’, ‘,’ or ‘\)’|expected declaration specifiers|expected ‘\)’ before ‘(?:int|char|short|long|unsigned|void|struct|union|enum)’|expected ‘{’ before|expected identifier or ‘\(’ before ‘\*’')
INSERT = ['(', ')', '[', ']', '{', '}', ';', ',', 'if', 'while', 'int', 'else', 'return', '=', '+', '*', ':', '?', 'case', '3', 'x', '"s"', '.', '->', 'struct', 'for', 'do', '==', '&&', '!', 'sizeof', 'switch', 'char', 'default', 'break', '++', '<<', '+=', '~', 'enum', 'union', 'void', 'typedef', 'static', 'continue', "'a'"]


def check(ck):
    ck.rule = 'distinct programs outside the language, whose valid counterpart is accepted'
    ck.assumptions = ['gcc rejects with an error starting with "expected" only programs that are not sentences of the grammar of C', 'parameter lists of functions and macros, and names of types, are read more liberally than by C and excluded']
    ck.build_all([(f, dict(san=True)) for b in B for f in B[b]])
    exes = {b: [ck.build(*f, san=True) for f in B[b]] for b in B}
    dial = lambda b: 'x86_64' if b == 'mac' else b
    T = {k: rejected.table(getattr(rejected, k)) for k in ('OUTER', 'STMT', 'TOP')}

    def verdict(exe, src):
        f = ck.s.write(src, '.c')
        r = run([exe, f], timeout=20, stdin=b'')
        return r

    def table(j):
        kind, n, b, k = j
        w, bad, good = T[kind][n]
        rng = random.Random('%d/%s/%d/%s/%d' % (ck.seed, kind, n, b, k))
        sh = b == 'sh'
        exe = rng.choice(exes[b])
        if kind != 'TOP':
            ctx = rng.choice(['%v = {};'] * 2 + ['if ({}) %v = 1;', '%v = 1 + ({});', 'while ({}) %v = 2;', '%v += {};', 'vg = {};', 'do %v = 2; while ({});'])
            x, y = re.fullmatch(r'%v = ([^;]*);?', bad), re.fullmatch(r'%v = ([^;]*);?', good)
            if x and y and bad.endswith(';') == good.endswith(';') and '{' not in bad and '?' not in bad:
                bad, good = ctx.replace('{}', x.group(1)), ctx.replace('{}', y.group(1))
            sub = lambda s: re.sub(r'%([vps])', r'vf_\1', s)
            st = rng.getstate()

            def make(s):
                rng.setstate(st)
                return Wrap(rng, sh, kind == 'STMT').function(sub(s))
            bad, good = make(bad), make(good)
        src = corpus.program(rng, dial(b), small=True)
        st = rng.getstate()
        psrc, rest = place(rng, src, bad)
        rng.setstate(st)
        gsrc, _ = place(rng, src, good)
        if bad.count('/*') > bad.count('*/') and '*/' in rest + bad[bad.rfind('/*'):]:
            return
        if '"a' in bad and quotes(bad) % 2 and (quotes(rest) % 2 or "'" in rest or '/*' in rest or '//' in rest):
            return
        x, y = verdict(exe, psrc), verdict(exe, gsrc)
        ck.count()
        what = '%s: %s' % (b, T[kind][n][1])
        if y.rc != 0 or y.timeout or y.san():
            ck.violation('%s: the valid counterpart %s is rejected: %r' % (what, T[kind][n][2], (y.rc, y.out[-200:], y.err[-200:])), {'input.c': gsrc})
        elif x.rc != 1 or x.timeout or x.san():
            ck.violation('%s is accepted (exit status %d)' % (what, x.rc) if x.rc == 0 else '%s: %r' % (what, x), {'input.c': psrc})
        elif not x.out.strip() or x.out.endswith(b'__code\n'):
            ck.violation('%s is rejected without a message' % what, {'input.c': psrc})
        else:
            ck.seen(psrc)
            ck.bump('constructs rejected (%s)' % b)
            if n == 0 and k == 0:
                ck.sample(psrc)
    jobs = [(kind, n, b, k) for k in range(ck.scale(1, 40)) for kind in T for n in range(len(T[kind])) for b in B if T[kind][n][0] == 'b' or (T[kind][n][0] == 's') == (b == 'sh')]
    ck.pmap(table, jobs)

    def syntax(s):
        rng = random.Random('%d/syntax/%d' % (ck.seed, s))
        b = ['sh', 'x86_64', 'sh', 'i386'][s % 4]
        exe = rng.choice(exes[b])
        t = TOK.findall(re.sub(r'(?m)^(?=\s*#)', '\f', corpus.program(rng, b, small=True)))
        # not in directives
        ix, d = [], False
        for i, x in enumerate(t):
            if x == '\f' or '\f' in x and x.isspace():
                d = True
            elif '\n' in x and x.isspace():
                d = d and t[i - 1] == '\\'
            elif not d and not x.isspace() and not x.startswith(('/*', '//')):
                ix.append(i)
        t = [x.replace('\f', '') for x in t]
        for _ in range(6):
            u = list(t)
            i = rng.choice(ix)
            m = rng.choice(['del', 'del', 'dup', 'rep', 'ins', 'swap'])
            j = rng.choice(ix)
            u[i] = {'del': ' ', 'dup': '%s %s' % (t[i], t[i]), 'rep': ' %s ' % t[j], 'ins': '%s %s ' % (t[i], rng.choice(INSERT)), 'swap': t[j]}[m]
            if m == 'swap':
                u[j] = t[i]
            src = ''.join(u)
            f = ck.s.write(src, '.c')
            g = run(['gcc', '-fsyntax-only', '-w', '-std=gnu99', '-fno-diagnostics-show-caret', f], timeout=20, extra_env={'LC_ALL': 'C.UTF-8'})
            e = [x for x in g.err.decode('utf-8', 'replace').split('\n') if 'error: ' in x]
            if g.rc == 0 or not e or not e[0].split('error: ')[1].startswith('expected') or LENIENT.search(e[0]):
                continue
            # an expected ) before a name is that of a parameter or of a type
            if re.search(r'expected ‘\)’ before', e[0]) and DECL.search(src.split('\n')[int(e[0].split(':')[1]) - 1]):
                continue
            x = run([exe, f], timeout=20, stdin=b'')
            ck.count()
            if x.rc == 1 and x.out.strip() and not x.san() and not x.timeout:
                ck.seen(src)
                ck.bump('syntax errors rejected (%s)' % b)
                ck.seen('gcc', re.sub(r'‘\w+’', '', e[0].split('error: ')[1]))
            else:
                ck.violation('%s: the syntax error %r (%s of %r) is not rejected: %r' % (b, e[0].split(':', 1)[1], m, t[i], (x.rc, x.out[-100:], x.err[-200:])), {'input.c': src})
    ck.pmap(syntax, range(ck.scale(600, 20000)))
    # structs that are not variables
    f = ck.s.write('struct S { int x; int y; };\nvoid f(struct S *a, struct S *b) { *a = *b; }\nint main() { return 0; }\n', '.c')
    r = run([ck.build('-Dsh'), f], timeout=20, stdin=b'')
    ck.count()
    ck.probe('sh-struct-assignment', r.rc != 1, 'assignment of a struct through pointers: %r' % r)
    probes.run(ck)


DECL = re.compile(r'\(\s*(?:int|char|short|long|unsigned|void|struct|union|enum|[A-Z]\w*)\b|sizeof')
