"""Random structured control flow for the shell backend: nested loops of every kind, switch, if
chains, break, continue and return in every position (tail or not) of functions with and without
results.  Every loop body consumes fuel, so that every program terminates."""

HEAD = '''
int fuel; int acc; int cnt;
int tick(int x) { cnt += 1; acc = (acc * 31 + x + cnt) & 65535; return x; }
int step(int k) { out(k); fuel -= 1; return fuel < 0; }
'''


class ShFlow:
    def __init__(self, rng, native=False):
        self.r, self.native = rng, native
        self.n = 0
        self.stats = {}
        self.funs = []

    def note(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def atom(self, s):
        return self.r.choice(s + ['acc', str(self.r.randint(0, 9))])

    def expr(self, s):
        r = self.r
        k = r.random()
        if k < 0.4:
            return self.atom(s)
        if k < 0.8:
            return '%s %s %s' % (self.atom(s), r.choice('+-^&|'), self.atom(s)) if r.random() < 0.5 else '(%s & %d) + %s' % (self.atom(s), r.choice([1, 3, 7]), self.atom(s))
        if k < 0.9:
            return '(%s) ? %s : %s' % (self.cond(s), self.atom(s), self.atom(s))
        return '-%s' % r.choice(s)

    def cond(self, s, d=1):
        r = self.r
        k = r.random()
        a = '(%s & %d)' % (r.choice(s + ['acc', 'cnt']), r.choice([1, 3, 7]))
        if k < 0.6 or not d:
            return '%s %s %d' % (a, r.choice(['<', '>', '==', '!=', '<=', '>=']), r.randint(0, 4))
        if k < 0.7:
            return a
        if k < 0.78:
            return '!%s' % a
        return '%s %s %s' % (self.cond(s, 0), r.choice(['&&', '||']), self.cond(s, 0))

    def ret(self, s):
        self.note('returns in %d loops' % self.loops)
        if self.void:
            return 'return;'
        k = self.r.random()
        if k < 0.2 and self.callee():
            return 'return %s;' % self.call(s)
        return 'return %s;' % self.expr(s)

    def callee(self):
        return [f for f in self.funs if not f[1]]

    def call(self, s):
        f = self.r.choice(self.callee())
        return '%s(%s, %s)' % (f[0], self.atom(s), self.atom(s))

    def mark(self, s):
        self.n += 1
        return 'if (step(%d)) %s' % (self.n, self.ret(s))

    def stmts(self, s, d, loop, end=None, n=None):
        """Statements, and the one that ends the block: None for any"""
        r = self.r
        out = [self.stmt(s, d, loop) for _ in range(n if n is not None else r.randint(0, 3))]
        k = r.random()
        if end:
            out.append(end)
        elif k < 0.25:
            out.append(self.ret(s))
        elif k < 0.4 and loop:
            out.append(r.choice(['break;', 'continue;']))
        else:
            out.append(self.stmt(s, d, loop))
        return ' '.join(out)

    def block(self, s, d, loop, **k):
        t = self.stmts(s, d, loop, **k)
        return '{ %s }' % t

    def simple(self, s):
        r = self.r
        k = r.random()
        if k < 0.35:
            return '%s = %s;' % (r.choice(s), self.expr(s))
        if k < 0.5:
            return 'tick(%s);' % self.atom(s)
        if k < 0.6:
            return '%s = tick(%s);' % (r.choice(s), self.expr(s))
        if k < 0.7:
            return 'out(%s);' % self.expr(s)
        if k < 0.8:
            return r.choice(['%s += 1;', '%s++;', '--%s;', '%s ^= acc;']) % r.choice(s)
        if k < 0.9 and self.funs:
            f = r.choice(self.funs)
            c = '%s(%s, %s);' % (f[0], self.atom(s), self.atom(s))
            return c if f[1] or r.random() < 0.5 else '%s = %s' % (r.choice(s), c)
        return r.choice([';', 'cnt += 2;', 'acc = acc ^ 5;'])

    def loopbody(self, s, d, **k):
        self.loops += 1
        t = '{ %s %s }' % (self.mark(s), self.stmts(s, d, True, **k))
        self.loops -= 1
        return t

    def stmt(self, s, d, loop):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.25:
            return self.simple(s)
        d -= 1
        if k < 0.48:
            t = 'if (%s) ' % self.cond(s)
            if r.random() < 0.2 and loop:
                t += r.choice(['break;', 'continue;'])
                self.note('loop exits')
            elif r.random() < 0.3:
                t += self.ret(s)
            else:
                t += self.block(s, d, loop)
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                t += ' else if (%s) %s' % (self.cond(s), self.block(s, d, loop))
            if r.random() < 0.45:
                t += ' else ' + self.block(s, d, loop)
            return t
        if k < 0.80:
            kind = r.choice(['while', 'for', 'do', 'forever', 'count'])
            self.note('loops ' + kind)
            if self.loops >= 2:
                self.note('loops nested in two loops')
            if kind == 'while':
                return 'while (%s) %s' % (self.cond(s), self.loopbody(s, d))
            if kind == 'for':
                i = r.choice(s)
                return 'for (%s; %s; %s) %s' % (r.choice(['', '%s = 0' % i, 'tick(2)']), self.cond(s), r.choice(['', '%s = (%s + 1) & 63' % (i, i), 'tick(1)', '%s += 1, cnt += 1' % i if self.native else 'cnt += 3']), self.loopbody(s, d))
            if kind == 'do':
                return 'do %s while (%s);' % (self.loopbody(s, d), self.cond(s))
            if kind == 'forever':
                return '%s %s' % (r.choice(['for (;;)', 'while (1)', 'for (%s = 1; ; %s += 1)' % (s[0], s[0])]), self.loopbody(s, d))
            i = r.choice(s)
            return 'for (%s = 0; %s < %d; %s += 1) %s' % (i, i, r.randint(1, 4), i, self.loopbody(s, d))
        if k < 0.93:
            self.note('switches')
            vals = r.sample(range(-1, 8), r.randint(1, 5))
            t = ''
            i = 0
            while i < len(vals):
                for _ in range(r.choice([1, 1, 2])):
                    if i < len(vals):
                        t += 'case %d: ' % vals[i]
                        i += 1
                t += self.arm(s, d, loop)
            if r.random() < 0.6:
                t += 'default: ' + self.arm(s, d, loop)
            return 'switch (%s) { %s}' % (r.choice(['%s', '%s & 7', '%s & 3']) % r.choice(s + ['acc']), t)
        return self.block(s, d, loop)

    def arm(self, s, d, loop):
        """A case: its breaks out of the switch are only at its end (a limit of the shell backend)"""
        r = self.r
        k = r.random()
        e = 'break;' if k < 0.6 else self.ret(s) if k < 0.85 or not loop else 'continue; break;'
        if k > 0.9:
            # both branches end the case
            e = 'if (%s) { %s %s } else { %s %s }' % (self.cond(s), self.simple(s), r.choice(['break;', self.ret(s)]), self.simple(s), r.choice(['break;', self.ret(s)]))
        return ' '.join([self.armstmt(s, d, loop) for _ in range(r.randint(0, 2))] + [e]) + ' '

    def armstmt(self, s, d, loop):
        """A statement of a case: nothing in it breaks or ends outside of the loops it has itself, except by returning or continuing"""
        r = self.r
        k = r.random()
        if k < 0.5 or d <= 0:
            return self.simple(s)
        if k < 0.7:
            return 'if (%s) { %s %s }' % (self.cond(s), self.simple(s), 'continue;' if loop and r.random() < 0.5 else self.simple(s))
        if k < 0.9:
            return 'while (%s) %s' % (self.cond(s), self.loopbody(s, d - 1))
        i = r.choice(s)
        return 'for (%s = 0; %s < %d; %s += 1) %s' % (i, i, r.randint(1, 4), i, self.loopbody(s, d - 1, end='break;'))

    def nest(self, s, d):
        """Loops nested in tail position, the innermost one ending with an if chain or a switch that returns"""
        r = self.r
        if d == 0:
            k = r.random()
            if k < 0.25:
                return 'switch (%s & 3) { case 0: %s case 1: case 2: %s %s}' % (r.choice(s), self.arm(s, 1, self.loops > 0), self.arm(s, 1, self.loops > 0), r.choice(['', 'default: ' + self.arm(s, 1, self.loops > 0)]))
            t = 'if (%s) { %s %s }' % (self.cond(s), self.simple(s), r.choice([self.ret(s), self.ret(s), self.simple(s)]))
            for _ in range(r.choice([0, 1, 2])):
                t += ' else if (%s) { %s %s }' % (self.cond(s), self.simple(s), r.choice([self.ret(s), self.simple(s), 'break;' if self.loops else ';', 'continue;' if self.loops else ';']))
            if r.random() < 0.4:
                t += ' else { %s %s }' % (self.simple(s), r.choice([self.ret(s), self.simple(s)]))
            return t
        self.loops += 1
        self.note('loops in tail position, depth %d' % self.loops)
        i = r.choice(s)
        body = self.mark(s) + ' ' + ' '.join(self.simple(s) for _ in range(r.choice([0, 1, 2])))
        inner = self.nest(s, d - 1)
        if r.random() < 0.2:
            inner = 'if (%s) { %s } else { %s }' % (self.cond(s), inner, self.simple(s))
        if r.random() < 0.15:
            inner = '{ %s %s }' % (self.simple(s), inner)
        if r.random() < 0.15:
            inner += ' ' + self.simple(s)
        body += ' ' + inner
        self.loops -= 1
        return r.choice(['while (%s) { %%s }' % self.cond(s), 'while (1) { %s }', 'for (;;) { %s }', 'do { %%s } while (%s);' % self.cond(s), 'for (%s = 0; %s < %d; %s += 1) { %%s }' % (i, i, r.randint(1, 5), i),
                         'for (%s = 0; ; %s++) { %%s }' % (i, i)]) % body

    def function(self, name):
        r = self.r
        self.loops = 0
        self.void = r.random() < 0.5
        self.note('functions without result' if self.void else 'functions with a result')
        s = ['a', 'b']
        loc = ''
        for i in range(r.choice([0, 1, 2])):
            s.append('v%d' % i)
            loc += 'int v%d = %s; ' % (i, r.choice(['a', 'b', '3', 'a + b']))
        k = r.random()
        n = r.randint(0, 3)
        d = r.randint(2, 4)
        if k < 0.35:
            body = self.stmts(s, 2, False, n=r.randint(0, 1), end=' ') + self.nest(s, r.randint(0, 4))
            if not self.void or r.random() < 0.2:
                body += ' ' + self.ret(s)
        elif k < 0.6:
            # ends with a loop, in tail position
            body = self.stmts(s, d, False, n=n, end=' ')
            t = self.stmt(s, d, False)
            while not t.startswith(('for', 'while', 'do')):
                t = self.stmt(s, d + 1, False)
            body += t
            if not self.void:
                body += ' ' + self.ret(s)
        else:
            body = self.stmts(s, d, False, n=n)
            if not self.void:
                body += ' ' + self.ret(s)
        self.funs.append((name, self.void))
        return '%s %s(int a, int b) {\n  %s\n  %s\n}\n' % ('void' if self.void else 'int', name, loc, body)

    def source(self):
        r = self.r
        n = r.randint(2, 5)
        t = HEAD + ''.join(self.function('f%d' % i) for i in range(n))
        main = []
        for f, void in self.funs:
            for _ in range(r.randint(1, 3)):
                c = '%s(%d, %d)' % (f, r.randint(-3, 12), r.choice([0, 1, 2, 5, -1]))
                main.append('fuel = %d; acc = %d; ' % (r.choice([4, 12, 30]), r.randint(0, 99)) + ('%s;' % c if void else 'cnt = %s; out(cnt);' % c) + ' out(acc); out(cnt); cnt &= 255;')
        return t + 'int main() {\n  ' + '\n  '.join(main) + '\n  return cnt & 63;\n}\n'
