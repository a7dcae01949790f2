"""C20: messages, __LINE__ and __FILE__ locate the source."""
import os, random, re
from .. import cases, diff, groups, probes, progs, ref
from ..core import run

# tokens that are not accepted anywhere
BAD = ['@', '...', '@', '`']
LOC = re.compile(rb'(?:Location: \x1b\[\d+m|(?:^|\n))([^\n\x1b]*?):(\d+):(\d+)(?:\x1b|  )')
TEXT = re.compile(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|//[^\n]*|/\*.*?\*/', re.S)


def layout(rng, text):
    """Blank lines, comments, line splices and lines of the preprocessor between the lines of a file: the program is the same"""
    out = []
    lines = text.split('\n')
    inside, multi = set(), set()
    for m in TEXT.finditer(text):
        a, b = text.count('\n', 0, m.start()), text.count('\n', 0, m.end())
        inside.update(range(a, b + 1) if b > a else [])
        if b > a:
            inside.discard(a)
            multi.add(a)
    n = 1

    def add(s):
        nonlocal n
        out.append(s)
        n += s.count('\n') + 1
    for i, l in enumerate(lines):
        k = rng.random()
        last = i == len(lines) - 1
        if not last and i not in inside and not (i and lines[i - 1].endswith('\\')):
            if k < 0.05:
                add('\n' * rng.randint(0, 3))
            elif k < 0.09:
                add('/* comment\n * "of\n\' several # lines\n%s*/' % ('\n' * rng.randint(0, 2)))
            elif k < 0.12:
                add('// comment %s' % rng.choice(['', '#if', '"', '/ *', "'"]))
            elif k < 0.16:
                add('#if __LINE__ != %d%s\n#error "line"\n#endif' % (n, rng.choice(['', ' /* c */', ' || 0'])))
            elif k < 0.18:
                add('#if 0\n%s\n#endif' % '\n'.join(rng.choice(['', 'junk', '@', '`$', '/*\n*/']) for _ in range(rng.randint(0, 3))))
            elif k < 0.2:
                add('#define VF_M%d %s' % (n, rng.choice(['', '1', '(x', '1 \\\n + 2 \\\n', '__LINE__'])))
        if i not in inside and i not in multi and '@' not in l and '`' not in l and not l.lstrip().startswith('#') and not l.endswith('\\') and rng.random() < 0.08 and ' ' in l and not TEXT.search(l):
            # the line is divided at a space
            p = rng.choice([j for j, c in enumerate(l) if c == ' '])
            l = l[:p] + rng.choice([' \\\n', '\n', ' /* a\n b */ ', '\n\n\n', ' // c\n']) + l[p:]
        elif rng.random() < 0.06 and i not in inside:
            l = rng.choice(['/* x */ ', ' ', '\t', '/**/']) + l if not l.lstrip().startswith('#') else l
        add(l)
    return '\n'.join(out)


def files_of(ck, rng, g, d):
    W = ck.s.mkdir()
    os.makedirs(W + '/search/deep')
    F = {'main.c': layout(rng, d)}
    for n, t in g.files.items():
        F[n] = layout(rng, t)
    for n, text in list(F.items()) + [('search/stdio.h', ''), ('search/stdlib.h', '')]:
        p = os.path.join(W, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(text)
    return W, F


def spots(l):
    """Positions between the tokens of a line that are not in a string or a comment"""
    busy = set()
    for m in TEXT.finditer(l):
        busy.update(range(m.start() + 1, m.end()))
        if m.group(0)[0] == '/':
            busy.update(range(m.start(), m.end() + 2))
    return [i for i, c in enumerate(l) if c in ' ;(){}' and i not in busy]


TOK = re.compile(r'[A-Za-z_]\w*|\d\w*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|[^\s\w]')
DIRECTIVE = re.compile(r'(?:^|\n)[ \t]*(?:/\*[^\n]*\*/[ \t]*)*#')


def before(t, j):
    """The line of the third token before the position j of a file, where a location may be, or 1 if lines of the preprocessor come in between"""
    c = TEXT.sub(lambda m: m.group(0) if m.group(0)[0] != '/' else re.sub(r'[^\n]', ' ', m.group(0)), t)
    ends = [m.end() for m in TOK.finditer(c, 0, j)]
    if len(ends) < 3:
        return 1
    p = c.rfind('\n', 0, ends[-3]) + 1
    while p > 1 and c[p - 2] == '\\':
        p = c.rfind('\n', 0, p - 1) + 1
    if DIRECTIVE.search(c, max(0, p - 1), j):
        # a line of the preprocessor, or the group it ends, is in between: at most the groups of the file
        return 1
    return c.count('\n', 0, ends[-3]) + 1


TOKENS = """... 1u 1 017 0x1F 'a' "s" -> ++ -- <<= >>= += -= *= /= %= &= |= ^= && || << >> <= >= == != . ; , : ? ~ ! * / % & | ^ < > = + - ( ) [ ] { }
auto break case char const continue default do double else enum extern float for goto if inline int long register return short signed sizeof static struct switch
typedef union unsigned void volatile while T M name __LINE__ __FILE__""".split()


def check(ck):
    ck.rule = 'distinct programs of several files with an error at a known place, or printing __LINE__ and __FILE__'
    ck.assumptions = ['__LINE__ in the arguments of a macro call that spans several lines is not specified by C and is excluded', 'gcc as the reference of __LINE__ and __FILE__']
    ts = [('sh', ck.build('-DRELEASE_PNUT_SH', san=True)), ('x86_64', ck.build('-DRELEASE_PNUT_x86_64_linux', san=True)), ('i386', ck.build('-Dtarget_i386_linux', '-DSAFE_MODE', san=True)),
          ('sh', ck.build('-Dsh', '-DSAFE_MODE', san=True)), ('x86_64', ck.build('-Dtarget_x86_64_linux', '-DINCLUDE_LINE_NUMBER_ON_ERROR', san=True))]

    def errors(s):
        rng = random.Random('%d/error/%d' % (ck.seed, s))
        dialect, exe = ts[s % len(ts)]
        nice = s % len(ts) != 4
        src = progs.Prog(rng, 'sh' if dialect == 'sh' else dialect, budget=rng.choice([150, 300]), nfuns=rng.randint(1, 3)).source(cases.SH_PRELUDE if dialect == 'sh' else cases.NAT_PRELUDE)
        L = src.split('\n')
        kind = rng.choice(['token', 'token', 'token', 'semantic', 'if', 'include', 'eof', 'error'] if nice else ['semantic'])
        code = [i for i, l in enumerate(L) if l.strip() and not l.startswith('#')]
        tops = [i for i in code if i and L[i][0] not in ' \t}' and L[i - 1][:1] in ('}', ';') or False]
        i = rng.choice(code)
        if kind == 'semantic' and dialect == 'sh':
            kind = 'token'
        if kind == 'token':
            bad = rng.choice(BAD if nice else BAD[:1])
            sp = spots(L[i])
            if not sp:
                return
            p = rng.choice(sp)
            mark = bad + '/*vf_bad*/'
            L[i] = L[i][:p] + ' ' + mark + ' ' + L[i][p:]
        elif kind == 'semantic':
            tops = [j for j in range(1, len(L)) if re.match(r'(int|void|char)\b', L[j])]
            if not tops:
                return
            mark = 'vf_bad'
            L.insert(rng.choice(tops), 'int vf_bad() { return vf_undeclared; } int vf_after;')
        elif kind == 'if':
            mark = '#if vf_bad('
            L.insert(i, mark)
            L.insert(i + 1, '#endif')
        elif kind == 'error':
            mark = '#error vf_bad'
            L.insert(i, mark)
        elif kind == 'include':
            mark = '#include "vf/bad.h"'
            L.insert(i, mark)
        else:
            mark = None
            L = L[:code[-1]]
        g = groups.Grouper(rng, '\n'.join(L), {'CMD_A': 1}, True)
        d = g.run(rng.randint(1, 5))
        if mark is None and kind == 'eof':
            d = d.rstrip('\n')
        W, F = files_of(ck, rng, g, d)
        path = rng.choice(['main.c', './main.c', W + '/main.c'])
        flags = ['-DCMD_A', '-Isearch/']
        r = run([exe, path] + flags, cwd=W, timeout=30)
        ck.count()
        where = [(n, j) for n, t in F.items() for j in [m.start() for m in re.finditer(re.escape(mark), t)]] if mark else []
        files = {('input.c' if n == 'main.c' else n.replace('/', '__')): t for n, t in F.items()}
        if r.timeout:
            ck.unsure('timeout')
            return
        if r.rc != 1 or r.san():
            if mark and len(where) != 1:
                return
            ck.violation('a program with an error (%s) [%s]: %r' % (kind, exe, r), files)
            return
        if mark and len(where) != 1:
            return
        if kind == 'error':
            if b'vf_bad' not in r.out:
                ck.violation('the message of #error is not printed: %r' % r.out[-300:], files)
            return
        m = LOC.findall(r.out)
        if not m:
            ck.violation('the message has no location (%s): %r' % (kind, r.out[-300:]), files)
            return
        f, line, col = m[-1][0].decode(), int(m[-1][1]), int(m[-1][2])
        ck.seen(kind, sorted(F.items()))
        ck.bump('located: ' + kind)
        rel = os.path.relpath(os.path.join(W, f), W)
        if mark is None:
            # the end of the input is found in the last file
            if b'abel main' in r.out:
                return
            n, j = 'main.c', len(F['main.c'])
        else:
            n, j = where[0]
        l0 = F[n].count('\n', 0, j) + 1
        c0 = j - (F[n].rfind('\n', 0, j) + 1) + 1
        if kind in ('include', 'if') and not F[n][j + len(mark):].strip():
            return
        lo, hi = before(F[n], j), l0
        if kind == 'semantic':
            hi = F[n].count('\n', 0, F[n].index('vf_after')) + 1
        elif kind in ('if', 'eof'):
            hi = l0 + 1
        ok = rel == os.path.normpath(n) and lo <= line <= hi
        if kind == 'token' and line == l0 and col > c0 + len(mark or ''):
            ok = False
        if not ok:
            ck.violation('an error (%s) at %s:%d:%d is located at %s:%d:%d instead of the lines %d to %d: %r' % (kind, n, l0, c0, f, line, col, lo, hi, r.out[-300:]), dict(files, message=r.out))
        ck.bump('lines of uncertainty', hi - lo)
    ck.pmap(errors, range(ck.scale(900, 20000)))

    # without initialisation of the globals, the scripts of the release do not run programs that rely on it
    ts[0] = ('sh', ck.build('-Dsh', '-DINCLUDE_LINE_NUMBER_ON_ERROR', '-DNICE_ERR_MSG', '-DOPTIMIZE_LONG_LINES', san=True))
    targets = [diff.Target(ck, ['sh', 'x86_64', 'i386', 'sh', 'x86_64'][i], exe, ['dash', 'bash'] if ts[i][0] == 'sh' else None) for i, (_, exe) in enumerate(ts)]

    def lines(s):
        rng = random.Random('%d/line/%d' % (ck.seed, s))
        t = targets[s % len(targets)]
        sh = bool(t.shells)
        src = progs.Prog(rng, 'sh' if sh else t.name, budget=rng.choice([100, 200]), nfuns=rng.randint(1, 3)).source(cases.SH_PRELUDE if sh else cases.NAT_PRELUDE)
        head = 'void vf_outs(char *s) { int i = 0; while (s[i]) { putchar(s[i]); i += 1; } putchar(10); }\n#define VF_L __LINE__\n#define VF_O(x) out(x + __LINE__)\n#define VF_N() VF_L\n#define VF_S(s) vf_outs(s)\n'
        uses = ['out(__LINE__); ', 'out(__LINE__\n); ', 'out(VF_L\n\n); ', 'out(\n__LINE__ /*\n*/ + 1); ', 'VF_O(1); ', 'VF_O(2)\n; ', 'vf_outs(__FILE__); ', 'VF_S(__FILE__); ', 'out(VF_N()\n); ', 'out(__LINE__\t); ']
        p = src.index('int main(') if 'int main(' in src else 0
        q = [m.start(1) for m in re.finditer(r'[;{]\s+(out\()', src)]
        q = [j for j in q if j > src.index("\n", src.index("void out("))]
        for j in reversed(q):
            if rng.random() < 0.3:
                src = src[:j] + rng.choice(uses) + src[j:]
        i = src.index('\n', src.index('void out('))  # after the prelude
        body = src
        k = body.index('void out(')
        e = body.index('\n}', k) + 2 if '\n' in body[k:body.index('}', k)] else body.index('\n', k)
        src = body[:e] + '\n' + head + body[e:]
        g = groups.Grouper(rng, src, {'CMD_A': 1}, True)
        d = g.run(rng.randint(1, 4))
        W, F = files_of(ck, rng, g, d)
        flags = ['-DCMD_A', '-Isearch/']
        files = {('input.c' if n == 'main.c' else n.replace('/', '__')): t_ for n, t_ in F.items()}
        x, r = ref.reference(ck, None, path='main.c', cwd=W, flags=flags + ['-include', '/usr/include/stdio.h', '-include', '/usr/include/stdlib.h'])
        ck.count()
        if x is None:
            ck.unsure('no reference: %r' % r)
            return
        import copy
        t2 = copy.copy(t)
        t2.flags = flags
        out, r = t2.compile('main.c', cwd=W)
        if out is None:
            ck.unsure('timeout') if r.timeout else ck.violation('the compiler fails [%s]: %r' % (t.name, r), files)
            return
        ck.seen('lines', sorted(F.items()))
        for n, y in t.runs(out):
            if y.timeout:
                ck.unsure('timeout')
                continue
            dd = diff.describe(x, y)
            if dd:
                ck.violation('lines and files [%s]: %s' % (n, dd), files)
                break
        if s == 0:
            ck.sample(F['main.c'])
        os.unlink(out)
    ck.pmap(lines, range(ck.scale(200, 4000)))

    def token(x):
        tk, (dialect, exe) = x
        src = 'typedef int T;\n#define M 1\n/* %s */\nint a[%s %s];\nint f(int x) { %s ) ( %s; return 0; }\n' % (tk, tk, tk, tk, tk)
        for i, s in enumerate((src, src.replace('int a[%s %s];\n' % (tk, tk), '\n'), 'int a;\n\n\n%s = = %s = %s' % (tk, tk, tk))):
            r = run([exe, ck.s.write(s, '.c')])
            ck.count()
            ck.seen('token', tk, i)
            m = LOC.findall(r.out)
            if r.san() or r.timeout or r.rc not in (0, 1) or (r.rc == 0 and i == 2):
                ck.violation('the token %s in an unexpected place [%s]: %r' % (tk, exe, r), {'input.c': s})
            elif r.rc and (len(m) != 1 or int(m[0][1]) not in (2, 3, 4, 5) or b'unknown token' in r.out):
                ck.violation('the message about the token %s: %r' % (tk, r.out[-300:]), {'input.c': s})
    ck.pmap(token, [(a, b) for a in TOKENS for b in ts[:3]])
    probes.run(ck)

