"""Random programs about calls: recursion, local variables, parameters of all types, returns
from nested statements.  Calls with effects are never unordered with one another."""

TYPES = [('char', 8, True), ('unsigned char', 8, False), ('short', 16, True), ('unsigned short', 16, False), ('int', 32, True), ('unsigned', 32, False)]
TYPES64 = [('long long', 64, True), ('unsigned long long', 64, False)]
NAMES = ['a', 'b', 'c', 'x', 'y', 'i', 'n', 'len', 'ptr', 'tmp', 'res', 'k', 'd', 'val', 'HOME', 'cnt', 'in', 'do_', 'fi', 'done', 'then', 'set', 'local', 'test', 'printf1', 'read1', 'A', 'aa']
NAMES = [x for x in NAMES if not x.endswith('_')]


class Calls:
    def __init__(self, rng, bits, sh=False):
        self.r, self.bits, self.sh = rng, bits, sh
        self.types = [('int', 32, True)] if sh else TYPES + (TYPES64 if bits == 64 else [])
        self.stats = {}
        self.funs = []      # (name, ret type, [types], pure)
        self.globs = []

    def note(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def type(self):
        r = self.r
        return ('int', 32, True) if r.random() < 0.4 else r.choice(self.types)

    def lit(self):
        r = self.r
        return str(r.choice([r.randint(-9, 9), r.randint(-200, 300), r.choice([127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, -32769])]))

    def expr(self, vs, d=2, pure=None):
        """An int expression without effects over the variables vs; pure: pure functions that may be called"""
        r = self.r
        k = r.random()
        if d == 0 or k < 0.3:
            return r.choice(vs) if vs and r.random() < 0.75 else self.lit()
        if k < 0.6:
            return '(%s %s %s)' % (self.expr(vs, d - 1, pure), r.choice(['^', '&', '|', '^']), self.expr(vs, d - 1, pure))
        if k < 0.72:
            return '((%s & 255) %s (%s & 15))' % (self.expr(vs, d - 1, pure), r.choice(['+', '-', '*']), self.expr(vs, d - 1, pure))
        if k < 0.8:
            return '(%s %s %s)' % (self.expr(vs, d - 1, pure), r.choice(['<', '>', '==', '!=', '<=', '>=']), self.expr(vs, d - 1, pure))
        if k < 0.88 and not self.sh:
            return '(%s)%s' % (r.choice(self.types)[0], self.expr(vs, 0, pure))
        if pure:
            f = r.choice(pure)
            self.note('calls of pure functions')
            return '%s(%s)' % (f[0], ', '.join([str(r.randint(0, 4))] + [self.expr(vs, d - 1, pure) for _ in f[2][1:]]))
        return '~%s' % self.expr(vs, d - 1, pure)

    def names(self, n, avoid=()):
        c = [x for x in NAMES if x not in avoid] + ['v%d' % i for i in range(30)]
        r = self.r
        base = r.sample(c[:24], min(n, 24)) + ['v%d' % i for i in range(max(0, n - 24))]
        return base

    def signature(self, i, pure):
        r = self.r
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 15, 20]) if r.random() < 0.5 else r.randint(0, 4)
        ps = [('int', 32, True)] + [self.type() for _ in range(n)]
        return (('q%d' if pure else 'f%d') % i, self.type() if not self.sh else ('int', 32, True), ps, pure)

    def pure_fun(self, f, others):
        r = self.r
        nm = self.names(len(f[2]) + 4)
        ps, ls = nm[:len(f[2])], nm[len(f[2]):]
        d = ps[0]
        s = ['%s %s(%s) {' % (f[1][0], f[0], ', '.join('%s %s' % (t[0], n) for t, n in zip(f[2], ps)))]
        nl = r.randint(1, 4)
        decl = []
        lt = [self.type() for _ in range(nl)]
        for t, l in zip(lt, ls[:nl]):
            decl.append('  %s %s = %s;' % (t[0], l, self.expr(ps, 1)))
        ls = ls[:nl]
        s += decl
        vs = ps + ls
        base = 'if (%s <= 0) { return %s; }' % (d, self.expr(vs, 2))
        s.append('  ' + base)
        rec = lambda: '%s(%s)' % (f[0], ', '.join(['%s - %d' % (d, r.randint(1, 2))] + [self.expr(vs, 1) for _ in f[2][1:]]))
        for _ in range(r.randint(1, 3)):
            k = r.random()
            v = r.choice(ls)
            if k < 0.4:
                s.append('  %s = %s;' % (v, '(%s ^ %s)' % (self.expr(vs, 1), rec()) if r.random() < 0.6 else rec()))
            elif k < 0.55:
                s.append('  %s = (%s & 63) + (%s ^ %s);' % (v, rec(), self.expr(vs, 1), v))
            elif k < 0.75:
                p = r.choice(vs[1:] or ls)
                s.append('  if (%s) { %s = %s; } else { return %s; }' % (self.expr(vs, 1), p, self.expr(vs, 2, others), rec()))
            else:
                s.append('  %s = %s;' % (r.choice(ls + ps[1:]), self.expr(vs, 2, others)))
        s.append('  return %s;\n}\n' % r.choice([self.expr(vs, 2), '(%s ^ %s)' % (r.choice(ls), rec()), rec()]))
        return '\n'.join(s)

    def call(self, f, vs, depth, pure):
        """A call with effects; at most one argument is itself such a call"""
        r = self.r
        args = [self.expr(vs, 1, pure) for _ in f[2][1:]]
        if args and depth > 0 and r.random() < 0.2:
            args[r.randrange(len(args))] = self.call(r.choice(self.eff), vs, depth - 1, None)
            # the other arguments must not depend on what it does: they only use local variables
            self.note('nested calls')
        return '%s(%s)' % (f[0], ', '.join(['d - %d' % r.randint(1, 2)] + args))

    def eff_fun(self, f, pure):
        r = self.r
        nm = self.names(len(f[2]) + 6, avoid=('d',))
        ps, ls = ['d'] + nm[:len(f[2]) - 1], nm[len(f[2]) - 1:]
        ls = ls[:r.randint(1, 5)]
        s = ['%s %s(%s) {' % (f[1][0], f[0], ', '.join('%s %s' % (t[0], n) for t, n in zip(f[2], ps)))]
        for l in ls:
            s.append('  %s %s = %s;' % (self.type()[0], l, self.expr(ps, 1)))
        lv, li = ('loop_a', 'loop_b')
        s.append('  int %s = 0; int %s = 0;' % (lv, li))
        vs = ps + ls
        s.append('  fuel -= 1;\n  if (fuel < 0 || d < 0) { return %s; }' % self.expr(vs, 1))
        s += ['  ' + self.stmt(vs, ls + ps[1:], 2, pure, (lv, li)) for _ in range(r.randint(2, 6))]
        s.append('  ' + ' '.join('out(%s);' % v for v in vs[:12] if True))
        s.append('  return %s;\n}\n' % (self.expr(vs, 2) if r.random() < 0.7 else self.call(r.choice(self.eff), vs, 1, pure)))
        return '\n'.join(s)

    def stmt(self, vs, ws, depth, pure, loops, incase=False):
        r = self.r
        k = r.random()
        if k < 0.3:
            return '%s = %s;' % (r.choice(ws), self.call(r.choice(self.eff), vs, 1, pure))
        if k < 0.42:
            v = r.choice(ws)
            return '%s = %s; out(%s);' % (v, self.expr(vs, 2, pure), v)
        if k < 0.5:
            return '%s; out(%s);' % (self.call(r.choice(self.eff), vs, 1, pure), r.choice(vs))
        if k < 0.56:
            g = r.choice(self.globs)
            return '%s = %s; out(%s);' % (g, self.expr(vs, 1), g)
        if k < 0.62:
            return 'out(%s);' % self.call(r.choice(self.eff), vs, 1, pure)
        if k < 0.68 and not self.sh:
            v = r.choice(ws)
            return 'poke(&loc_%s, %s);' % (0, self.expr(vs, 1)) if False else '%s += %s;' % (v, r.choice(['1', '2']))
        if depth == 0:
            return 'out(%s);' % self.expr(vs, 1)
        sub = lambda: self.stmt(vs, ws, depth - 1, pure, loops, incase)
        if incase and 0.62 <= k < 0.76:
            k = 0.78        # scripts cannot return conditionally from a case
        if k < 0.76:
            self.note('returns from nested statements')
            return 'if (%s) { %s return %s; }' % (self.expr(vs, 1), sub(), self.expr(vs, 1))
        if k < 0.80:
            c = self.call(r.choice(self.eff), vs, 0, None)
            return 'if (%s) { %s } else { %s }' % (r.choice([c, '%s > 3' % c, '!%s' % c]), sub(), sub())
        if k < 0.93:
            if not loops:
                return sub()
            l, rest = loops[0], loops[1:]
            self.note('loops with calls')
            body = self.stmt(vs + [l], ws, depth - 1, pure, rest) + ' ' + self.stmt(vs + [l], ws, depth - 1, pure, rest)
            x = r.choice(['if (%s) { return %s; }' % (self.expr(vs + [l], 1), l), 'if (%s) { break; }' % self.expr(vs + [l], 1), 'if (%s == 1) { continue; }' % l, ''])
            n = r.randint(1, 3)
            return r.choice(['for (%s = 0; %s < %d; %s += 1) { %s %s out(%s); }' % (l, l, n, l, body, x, l),
                             '%s = %d; while (%s > 0) { %s -= 1; %s %s out(%s); }' % (l, n, l, l, body, x, l),
                             '%s = %d; do { %s -= 1; %s %s out(%s); } while (%s > 0);' % (l, n, l, body, x, l, l)])
        v = r.choice(vs)
        incase = self.sh
        return 'switch (%s & 3) { case 0: %s break; case 1: %s return %s; case 2: { %s } break; default: %s break; }' % (v, sub(), sub(), self.expr(vs, 1), sub(), sub())

    def source(self):
        r = self.r
        self.globs = ['g%d' % i for i in range(3)]
        if r.random() < 0.5:
            self.globs += r.sample(['a', 'b', 'x', 'i', 'tmp', 'len'], 2)      # hidden by local variables
        pure = [self.signature(i, True) for i in range(r.randint(1, 3))]
        eff = [self.signature(i, False) for i in range(r.randint(1, 4))]
        self.eff = eff
        proto = ''
        out = 'int fuel;\n' + ''.join('int %s = %d;\n' % (g, r.randint(-5, 50)) for g in self.globs)
        if len(eff) > 1 or r.random() < 0.5:
            out += ''.join('%s %s(%s);\n' % (f[1][0], f[0], ', '.join('%s p%d' % (t[0], i) for i, t in enumerate(f[2]))) for f in eff)
        for i, f in enumerate(pure):
            out += self.pure_fun(f, pure[:i])
        # globals are only used by functions with effects through assignments and out
        for f in eff:
            out += self.eff_fun(f, pure)
        main = ''
        for f in pure * 2 + eff * 2:
            args = [str(r.randint(0, 3))] + [self.lit() for _ in f[2][1:]]
            main += '  fuel = %d; out(%s(%s));\n' % (r.choice([3, 8, 20]), f[0], ', '.join(args))
        return out + 'int main() {\n' + main + ''.join('  out(%s);\n' % g for g in self.globs) + '  return 0;\n}\n'
