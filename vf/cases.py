"""Programs made of expression cases: functions evaluating one expression in one
context, on several concrete valuations, and tracing the result and all variables."""
from . import cexpr as X
from .cexpr import INT, UINT, LONG, ULONG, TYPES, lit, pr


class Fun:
    def __init__(self, ret, params, src, call, reads=(), writes=()):
        self.ret, self.params, self.src, self.call = ret, params, src, call
        self.reads, self.writes = set(reads), set(writes)


def std_funs(ty=INT):
    """Functions called by the cases: f1 traces, f2 modifies g, f3 is pure, f4 reads g"""
    def f1(env, a):
        env.trace.append(a[0])
        return X.check(a[0] + 1, INT)

    def f2(env, a):
        c = env.vars['g']
        c[1] = X.check(a[0] - a[1], INT)
        return X.check(c[1] + 3, INT)

    def f3(env, a):
        return int(a[0] > a[1])

    def f4(env, a):
        return X.check(env.vars['g'][1] + a[0], INT)
    return {
        'f1': Fun(INT, [INT], 'int f1(int x) { out(x); return x + 1; }', f1, (), ('#io',)),
        'f2': Fun(INT, [INT, INT], 'int f2(int x, int y) { g = x - y; return g + 3; }', f2, ('g',), ('g',)),
        'f3': Fun(INT, [INT, INT], 'int f3(int x, int y) { if (x > y) { return 1; } return 0; }', f3),
        'f4': Fun(INT, [INT], 'int f4(int x) { return g + x; }', f4, ('g',), ()),
    }


SH_PRELUDE = '''#include <stdio.h>
#include <stdlib.h>
void out(int n) { printf("%d\\n", n); }
'''
SH_PRELUDE_PUTCHAR = '''#include <stdio.h>
#include <stdlib.h>
void outn(int n) { if (n <= -10) { outn(n / 10); putchar('0' - n % 10); } else { putchar('0' - n); } }
void out(int n) { if (n < 0) { putchar('-'); outn(n); } else { outn(0 - n); } putchar('\\n'); }
'''
NAT_PRELUDE = '''#include <stdio.h>
#include <stdlib.h>
void outn(int n) { if (n <= -10) outn(n / 10); putchar('0' - n % 10); }
void out(int n) { if (n < 0) putchar('-'); else n = -n; outn(n); putchar('\\n'); }
'''
NAT64_PRELUDE = NAT_PRELUDE + '''void outln(long long n) { if (n <= -10) outln(n / 10); putchar('0' - n % 10); }
void outl(long long n) { if (n < 0) putchar('-'); else n = -n; outln(n); putchar('\\n'); }
'''

INTERESTING = [0, 1, -1, 2, 3, 5, 7, 10, -2, -3, -7, 13, 31, 32, 33, 63, 64, 100, 127, 128, 255, 256, 1000, -100, 32767, 32768, 65535, 65536,
               -32768, 0x7fffffff, -0x80000000, 0x7ffffffe, 123456789, -987654321]


def value(rng, t, small=0.6):
    if rng.random() < small:
        v = rng.randrange(-9, 20)
    else:
        v = rng.choice(INTERESTING + ([1 << 40, -(1 << 40), (1 << 63) - 1, -(1 << 63), (1 << 32) - 1, 1 << 32, 0x123456789abcdef] if t.bits == 64 else []))
        if t.bits == 64 and rng.random() < 0.3:
            v = rng.getrandbits(64)
        elif t.bits >= 32 and rng.random() < 0.2:
            v = rng.getrandbits(32)
    return X.conv(v, t)


CONTEXTS = ['ret', 'init', 'assign', 'gassign', 'if', 'while', 'for', 'dowhile', 'arg', 'arg2', 'index', 'lindex', 'opassign', 'not',
            'tern', 'ternval', 'switch', 'store', 'stmt', 'ifelse', 'andtest', 'ortest']
TESTS = {'if', 'while', 'for', 'dowhile', 'ifelse', 'andtest', 'ortest'}


class CaseProgram:
    def __init__(self, rng, dialect, prelude=None, nvals=3):
        self.rng, self.dialect = rng, dialect
        self.funs = std_funs()
        self.sh = dialect == 'sh'
        self.long = dialect == 'native64'
        self.prelude = prelude or (SH_PRELUDE if self.sh else NAT64_PRELUDE if self.long else NAT_PRELUDE)
        self.cases = []
        self.bodies = []
        self.mains = []
        self.nvals = nvals
        self.fmts = 'dddxoX'
        self.noneg0 = False
        self.keys = []

    def types(self):
        if self.sh:
            return [INT]
        ts = ['char', 'unsigned char', 'short', 'unsigned short', 'int', 'int', 'unsigned int']
        if self.long:
            ts += ['long long', 'long long', 'unsigned long long']
        return [TYPES[t] for t in ts]

    def o(self, t):
        return 'outl' if self.long else 'out'

    def layout(self, typed=True):
        """Types of the variables of a case"""
        r = self.rng
        ts = self.types()
        pick = (lambda: r.choice(ts)) if typed else (lambda: INT)
        lay = {'a': pick(), 'b': pick(), 'c': pick(), 'l': pick(), 'm': pick(), 'g': INT, 'h': INT}
        lay['ga'] = INT if not typed or self.sh else r.choice([t for t in ts])
        return lay

    def env(self, lay, vals):
        e = X.Env({k: [lay[k], vals[k]] for k in 'abclmgh'}, {'ga': (lay['ga'], list(vals['ga']))}, self.funs, strict=self.sh)
        e.noneg0 = self.noneg0
        return e

    def vals(self, lay, small=0.6):
        d = {k: value(self.rng, lay[k], small) for k in 'abclmgh'}
        d['ga'] = [value(self.rng, lay['ga'], small) for _ in range(4)]
        return d

    def add(self, tree, ctx, lay, vlist, key=None):
        """Adds a case; the caller checked tree on vlist with feasible()"""
        i = len(self.bodies)
        n = 't%d' % i
        e = lambda p: pr(tree, p, self.rng.choice([' ', ' ', '']))
        d = 0
        tt = X.Env({k: [lay[k], 0] for k in 'abclmgh'}, {'ga': (lay['ga'], [0] * 4)}, self.funs).typ(tree)
        rt = 'long long' if self.long else 'int'
        tn = lambda t: t.name
        pre, body = '', ''
        R = 'r'
        decl = '%s r;' % rt
        if ctx == 'ret':
            pre = '%s q%d(%s a, %s b, %s c, %s l, %s m) { %s }' % (
                tn(tt), i, tn(lay['a']), tn(lay['b']), tn(lay['c']), tn(lay['l']), tn(lay['m']), 'return %s;' % e(0))
            body = 'r = q%d(a, b, c, l, m);' % i
        elif ctx == 'init':
            decl = '%s r = %s;' % (rt, e(2))
        elif ctx == 'assign':
            body = 'r = %s;' % e(2)
        elif ctx == 'gassign':
            body = 'gr = %s; r = gr;' % e(2)
        elif ctx == 'if':
            body = 'r = 7; if (%s) { r = 9; }' % e(0)
        elif ctx == 'ifelse':
            body = 'if (%s) r = 3; else r = 4;' % e(0)
        elif ctx == 'andtest':
            body = 'r = 1; if (a != 77 && %s) r = 3; else if (g > 2) r = 4;' % e(6)
        elif ctx == 'ortest':
            body = 'r = 1; if (a == 77 || %s) r = 3; else r = 4;' % e(5)
        elif ctx == 'while':
            body = 'r = 0; while (%s) { r = 5; break; }' % e(0)
        elif ctx == 'for':
            body = 'r = 0; for (; %s; r = 1) { r = 6; break; }' % e(0)
        elif ctx == 'dowhile':
            body = 'r = 0; do { r = r + 1; if (r == 2) { break; } } while (%s);' % e(0)
        elif ctx == 'arg':
            body = 'r = id(%s);' % e(2)
        elif ctx == 'arg2':
            body = 'r = id3(1, %s, 2);' % e(2)
        elif ctx == 'index':
            body = 'r = tab[%s];' % pr(('b', '&', tree, lit(7)), 0)
        elif ctx == 'lindex':
            k = ('b', '%', tree, lit(4))
            body = 'r = 0; tab2[%s] = 5; r = tab2[0] + tab2[1] * 10 + tab2[2] * 100 + tab2[3] * 1000 + tab2[4] * 10000 + tab2[5] * 7 + tab2[6] * 70; tab2[0] = 0; tab2[1] = 0; tab2[2] = 0; tab2[3] = 0; tab2[4] = 0; tab2[5] = 0; tab2[6] = 0;' % pr(('b', '+', k, lit(3)), 0)
        elif ctx == 'opassign':
            body = 'r = 3; r += %s;' % e(2)
        elif ctx == 'not':
            body = 'r = !%s;' % e(14)
        elif ctx == 'tern':
            body = 'r = %s ? 11 : 22;' % e(4)
        elif ctx == 'ternval':
            body = 'r = a > b ? %s : -1;' % e(3)
        elif ctx == 'switch':
            ev = self.env(lay, vlist[0]).ev(tree)[0]
            c1 = ev if -1000000 < ev < 1000000 else 0
            body = 'r = 0; switch (%s) { case %d: r = 1; break; case %d: r = 2; break; default: r = 3; break; }' % (e(0), c1, c1 + 1)
        elif ctx == 'store':
            body = 'gq[2] = %s; r = gq[2] + gq[1];' % e(2)
        elif ctx == 'stmt':
            body = 'r = 0; %s;' % e(0)
        else:
            raise AssertionError(ctx)
        outf = 'outl' if self.long else 'out'
        P = ', '.join('%s %s' % (lay[k].name, k) for k in 'abc')
        fn = '%s\nvoid %s(%s, %s l0, %s m0) { %s l = l0; %s m = m0; %s %s ' % (
            pre, n, P, lay['l'].name, lay['m'].name, lay['l'].name, lay['m'].name, decl, body)
        # declarations come before the statements in the dialect
        ga = 'ga' if lay['ga'] is INT else 'ga%d' % i
        if self.sh:
            fn += 'printf("%d %d %d %d %d %d %d %d %d %d %d %d\\n", r, a, b, c, l, m, g, h, ga[0], ga[1], ga[2], ga[3]); }'
        else:
            fn += ' '.join('%s(%s);' % (outf, k) for k in 'rabclm') + ' out(g); out(h);'
            fn += ' '.join(' %s(%s[%d]);' % (outf, ga, k) for k in range(4)) + ' }'
        if ga != 'ga':
            fn = ('%s %s[4];\n' % (lay['ga'].name, ga)) + fn.replace('ga[', ga + '[')
        self.bodies.append(fn)
        mains = []
        self.mains.append(mains)
        for v in vlist:
            st = 'g = %s; h = %s; ' % (self.c(v['g']), self.c(v['h']))
            st += ' '.join('%s[%d] = %s;' % (ga, k, self.c(v['ga'][k], lay['ga'])) for k in range(4))
            mains.append('  %s %s(%s);' % (st, n, ', '.join(self.c(v[k], lay[k]) for k in 'abclm')))
        self.keys.append(key)

    def c(self, v, t=INT):
        t = X.promote(t)
        if not self.long and t is UINT and v >= 0:
            return '%dU' % v if v > 0x7fffffff else '%d' % v
        return pr(lit(v, t), 2)

    def feasible(self, tree, ctx, lay, small=0.6, tries=20, distinguish=None, nvals=None):
        """Valuations on which the case has no undefined behaviour"""
        try:
            X.effects(tree, self.funs)
            if self.sh and not X.sh_ok(tree, self.funs, ctx in TESTS):
                return None
            if self.sh and ctx == 'ternval' and (X.has_call(tree) or not X.sh_ok(('t', ('v', 'a'), tree, tree), self.funs)):
                return None
        except X.UB:
            return None
        good = []
        nvals = nvals or self.nvals
        for _ in range(tries):
            v = self.vals(lay, small)
            env = self.env(lay, v)
            try:
                x, t = env.ev(tree)
                if self.sh and ctx == 'ternval':
                    self.env(lay, v).eager(tree)
                if self.sh or t.bits <= 32 and not self.long:
                    if ctx in ('opassign', 'store', 'lindex') and not (-(1 << 30) < x < 1 << 30):
                        continue
                if ctx == 'opassign' and self.long and not (-(1 << 62) < x < 1 << 62):
                    continue
                if ctx == 'switch' and not (t.bits <= 32 and t.signed):
                    return None
                if distinguish is not None:
                    try:
                        y = self.env(lay, v).ev(distinguish)[0]
                        if y == x and not (self.rng.random() < 0.02):
                            continue
                    except X.UB:
                        pass
                good.append(v)
                if len(good) == nvals:
                    return good
            except X.UB:
                continue
        return good or None

    def random_case(self, depth, contexts=CONTEXTS, casts=True, tries=60):
        r = self.rng
        for _ in range(tries):
            ctx = r.choice(contexts)
            lay = self.layout()
            consts = None
            if self.long:
                consts = [0, 1, 2, 3, 7, 10, 255, 65535, 0x7fffffff, (5, LONG), (0xffffffff, UINT), (3, UINT), (1 << 35, LONG), (7, ULONG)]
            elif not self.sh:
                consts = [0, 1, 2, 3, 7, 10, 255, 65535, 0x7fffffff, (0xffffffff, UINT), (3, UINT)]
            g = X.Gen(r, 'abclmgh', [('ga', 4)], self.funs, consts=consts, casts=[] if not casts else ([INT] if self.sh else self.types()),
                      dialect='sh' if self.sh else 'native', comma=not self.sh)
            g.fmts = self.fmts
            tree = g.expr(depth, test=ctx in TESTS)
            if ctx in ('ret',) and any(x[0] in ('=', '++', '--', 'p++', 'p--') and x[1 if x[0] != '=' else 2] == ('v', k) for x in X.walk(tree) for k in 'abclm'):
                continue
            if ctx == 'stmt' and tree[0] in ('v', 'n', 'i'):
                continue
            if ctx == 'andtest' and self.sh and False:
                continue
            vl = self.feasible(tree, ctx, lay, small=r.choice([0.9, 0.6, 0.3]))
            if vl:
                self.add(tree, ctx, lay, vl, key=(ctx, shape(tree)))
                return tree
        return None

    def source(self, only=None):
        only = range(len(self.bodies)) if only is None else only
        rt = 'long long' if self.long else 'int'
        s = self.prelude
        s += 'int g; int h; %s gr; int ga[4]; int tab[8]; int tab2[8]; %s gq[4];\n' % (rt, rt)
        s += '%s id(%s x) { return x; }\n%s id3(int x, %s y, int z) { return y + (x - 1) + (z - 2); }\n' % (rt, rt, rt, rt)
        s += '\n'.join(self.funs[f].src for f in sorted(self.funs)) + '\n'
        s += '\n'.join(self.bodies[i] for i in only)
        ms = [m for i in only for m in self.mains[i]]
        chunks = [ms[i:i + 40] for i in range(0, len(ms), 40)]
        for k, ch in enumerate(chunks):
            s += '\nvoid main%d() {\n%s\n}\n' % (k, '\n'.join(ch))
        s += '\nint main() {\n  int i = 0;\n  for (i = 0; i < 8; i++) { tab[i] = i * i + 3; tab2[i] = 0; }\n'
        s += ''.join('  main%d();\n' % k for k in range(len(chunks))) + '  return 0;\n}\n'
        return s


def shape(t):
    """Operators of a tree, for the count of distinct cases"""
    k = t[0]
    if k in ('v', 'n', 'call'):
        return k if k != 'call' else ('call', t[1]) + tuple(shape(x) for x in t[2])
    return (k,) + tuple(shape(x) if isinstance(x, tuple) and not isinstance(x, X.T) else str(x) for x in t[1:])
