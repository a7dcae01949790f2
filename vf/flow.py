"""Random control flow for the native backends: goto in all directions, switch with cases in
nested statements, loops, blocks with local variables.  Every label and loop body consumes
fuel, so that every program terminates."""

HEAD = '''
int fuel; int acc; int cnt;
int tick(int x) { cnt += 1; acc = (acc * 31 + x + cnt) & 0xffffff; return x; }
int step(int k) { out(k); fuel -= 1; return fuel < 0; }
'''


class Flow:
    def __init__(self, rng, bits):
        self.r, self.bits = rng, bits
        self.n = 0
        self.stats = {}
        self.calls = []

    def note(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def fresh(self, p='x'):
        self.n += 1
        return '%s%d' % (p, self.n)

    def expr(self, scope, d=2):
        r = self.r
        k = r.random()
        v = r.choice(scope)
        if k < 0.25 or d == 0:
            return r.choice([v, str(r.randint(-3, 6))])
        if k < 0.45:
            a, b = self.expr(scope, d - 1), self.expr(scope, d - 1)
            if ('tick' in a and ('tick' in b or 'acc' in b)) or ('tick' in b and 'acc' in a):
                b = '3'     # the order of evaluation is not specified
            return '(%s %s %s)' % (a, r.choice(['^', '&', '|']), b)
        if k < 0.6:
            return 'tick(%s & 15)' % self.expr(scope, d - 1)
        if k < 0.7:
            return '(%s & 7)' % v
        if k < 0.8:
            return '(%s ? %s : %s)' % (self.cond(scope), self.expr(scope, d - 1), self.expr(scope, d - 1))
        if k < 0.9:
            return '(%s >> %d)' % (v, r.randint(0, 4))
        return '(acc & %d)' % r.choice([1, 3, 7, 15])

    def cond(self, scope):
        r = self.r
        k = r.random()
        a = '(%s & %d)' % (r.choice(scope + ['acc']), r.choice([1, 3, 7]))
        if k < 0.5:
            return '%s %s %d' % (a, r.choice(['<', '>', '==', '!=', '<=', '>=']), r.randint(0, 4))
        if k < 0.65:
            return a
        if k < 0.75:
            return '!%s' % a
        if k < 0.88:
            return '%s %s tick(%s & 3) %s 1' % (a, r.choice(['&&', '||']), r.choice(scope), r.choice(['<', '==', '>']))
        return 'acc & 1 ? %s : %s > 2' % (a, r.choice(scope))

    def mark(self):
        """Ends the function when no fuel is left; prints where the execution is"""
        self.n += 1
        return 'if (step(%d)) return %s;' % (self.n, self.r.choice(['acc', '-1', 'cnt']))

    def label(self):
        """Labels of a statement, and the check that follows them"""
        if not self.labels_left:
            return ''
        l = self.labels_left.pop()
        self.defined.append(l)
        s = l + ':'
        if self.labels_left and self.r.random() < 0.15:
            l = self.labels_left.pop()
            s += ' ' + l + ':'
        return s + ' ' + self.mark() + ' '

    def stmts(self, scope, depth, loop, switch, n=None):
        """loop: 'continue' is allowed; switch: cases may be defined here (list of values left)"""
        r = self.r
        out = []
        for _ in range(n if n is not None else r.randint(1, 4)):
            pre = ''
            if r.random() < 0.12:
                pre = self.label()
            if switch is not None and r.random() < 0.22:
                pre += self.case(switch)
            out.append(pre + self.stmt(scope, depth, loop, switch))
        return ' '.join(out)

    def case(self, switch):
        r = self.r
        s = ''
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            if switch['default'] and r.random() < 0.2:
                switch['default'] = False
                s += 'default: '
                self.note('default')
            elif switch['values']:
                v = switch['values'].pop()
                s += 'case %s: ' % v
                self.note('cases')
        return s

    def value(self, v):
        r = self.r
        k = r.random()
        if k < 0.15 and v >= 0:
            return '0x%x' % v
        if k < 0.25:
            return '%d + %d' % (v - 2, 2)
        if k < 0.3:
            return '(%d)' % v
        if k < 0.36 and v >= 0:
            return 'K%d' % v if v < 4 else str(v)
        if k < 0.4 and v == 10:
            return "'\\n'"
        return str(v)

    def stmt(self, scope, depth, loop, switch):
        r = self.r
        k = r.random()
        inswitch = switch is not None
        if depth <= 0:
            k = k * 0.45
        if k < 0.18:
            return '%s = %s;' % (r.choice(scope), self.expr(scope))
        if k < 0.24:
            return 'out(%s);' % self.expr(scope)
        if k < 0.28:
            return r.choice(['tick(%s & 31);', '%s;', ';']).replace('%s', r.choice(scope))
        if k < 0.36:
            if self.alllabels:
                self.note('gotos')
                return r.choice(['if (%s) goto %s;' % (self.cond(scope), r.choice(self.alllabels)), 'goto %s;' % r.choice(self.alllabels)] if r.random() < 0.15 else
                                ['if (%s) goto %s;' % (self.cond(scope), r.choice(self.alllabels))])
            return ';'
        if k < 0.40:
            if loop or inswitch:
                return 'if (%s) break;' % self.cond(scope) if r.random() < 0.7 else 'break;'
            return 'cnt += 1;'
        if k < 0.44:
            if loop:
                self.note('continues')
                return 'if (%s) continue;' % self.cond(scope)
            return 'cnt -= 1;'
        if k < 0.45:
            return 'if (%s) return %s;' % (self.cond(scope), self.expr(scope))
        if k < 0.55:
            a = self.body(scope, depth - 1, loop, switch)
            if r.random() < 0.5:
                if a.endswith(';') and not a.endswith('}') and not a.startswith('{'):
                    a = '{ ' + a + ' }'     # no dangling else
                return 'if (%s) %s else %s' % (self.cond(scope), a, self.body(scope, depth - 1, loop, switch))
            return 'if (%s) %s' % (self.cond(scope), a)
        if k < 0.62:
            self.note('loops')
            return 'while (%s) { %s %s }' % (self.cond(scope), self.mark(), self.stmts(scope, depth - 1, True, self.inloop(switch)))
        if k < 0.69:
            self.note('loops')
            i = r.choice(scope)
            return 'for (%s; %s; %s) { %s %s }' % (r.choice(['', '%s = 0' % i, 'tick(2)']), r.choice(['', self.cond(scope), self.cond(scope)]), r.choice(['', '%s = (%s + 1) & 63' % (i, i), 'tick(1)']), self.mark(),
                                                  self.stmts(scope, depth - 1, True, self.inloop(switch)))
        if k < 0.74:
            self.note('loops')
            return 'do { %s %s } while (%s);' % (self.mark(), self.stmts(scope, depth - 1, True, self.inloop(switch)), self.cond(scope))
        if k < 0.90:
            self.note('switches')
            vals = r.sample([-2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 100, 255, 256, 1000, -1000], r.randint(0, 8))
            if r.random() < 0.6:
                vals = r.sample(range(0, 8), r.randint(1, 7))
            sw = {'values': [self.value(v) for v in vals], 'default': r.random() < 0.6}
            e = r.choice(['%s', '(%s & 7)', '(%s & 7)', '(char)%s', '(short)(%s & 7)', 'tick(%s & 7)', '(unsigned char)%s', '(%s & 7) + 0']) % r.choice(scope + ['acc'])
            if r.random() < 0.08:
                # a switch whose body is a loop
                b = 'while (%s) { %s %s }' % (self.cond(scope), self.mark(), self.stmts(scope, depth - 1, True, sw, r.randint(2, 5)))
                self.note('cases inside loops')
                return 'switch (%s) %s' % (e, b)
            pre = '' if r.random() < 0.2 else self.case(sw)
            body = pre + self.stmts(scope, depth - 1, loop, sw, r.randint(2, 6))
            while sw['values'] and r.random() < 0.8:
                body += ' ' + self.case(sw) + self.stmt(scope, depth - 1, loop, sw) + r.choice(['', ' break;', ' break;'])
            if sw['default'] and r.random() < 0.7:
                sw['default'] = False
                body += ' default: ' + self.stmt(scope, depth - 1, loop, None if False else sw)
            return 'switch (%s) { %s }' % (e, body)
        # a block with local variables, which are assigned before every use
        self.note('blocks with locals')
        ds, use = [], []
        for _ in range(r.randint(1, 3)):
            x = self.fresh('b') if r.random() < 0.7 else r.choice(['v0', 'v1', 'w'])
            if x in ds:
                continue
            ds.append(x)
        big = r.random() < 0.3
        decls = ' '.join('int %s;' % x for x in ds) + (' char %s[%d];' % (self.fresh('c'), r.choice([1, 3, 8, 17, 40])) if big else '')
        inner = [x for x in scope if x not in ds]
        u = ' '.join('%s = %s; out(%s);' % (x, self.expr(inner or ['acc'], 1), x) for x in ds)
        if not inner:
            inner = ['acc']
        self.barrier += 1
        s = '{ %s %s %s %s }' % (decls, self.stmts(inner, depth - 1, loop, switch), u, self.stmts(inner, depth - 1, loop, switch, r.randint(0, 2)))
        self.barrier -= 1
        return s

    def inloop(self, switch):
        """The cases of an enclosing switch may be inside of the loop"""
        return switch if switch is not None and self.r.random() < 0.5 else None

    def body(self, scope, depth, loop, switch):
        if self.r.random() < 0.65:
            return '{ %s }' % self.stmts(scope, depth, loop, switch)
        pre = self.label() if self.r.random() < 0.1 else ''
        if pre:
            return '{ %s%s }' % (pre, self.stmt(scope, depth, loop, switch))
        return self.stmt(scope, depth, loop, switch)

    def function(self, name):
        r = self.r
        self.barrier = 0
        nl = r.choice([0, 2, 4, 7])
        labels = r.sample(['L%d' % i for i in range(20)] + ['v1', 'acc', 'out', 'top', 'end', 'x_'], nl)
        self.labels_left = list(labels)
        self.alllabels = list(labels)
        self.defined = []
        scope = ['v0', 'v1', 'v2', 'w']
        body = self.stmts(scope, r.randint(2, 5), False, None, r.randint(3, 8))
        rest = ''
        while self.labels_left:
            rest += self.label() + self.stmt(scope, 1, False, None) + ' '
        return 'int %s(int v0, int v1) {\n  int v2 = 3; int w = v0 ^ 5;\n  %s\n  %s\n  out(v0); out(v1); out(v2); return w;\n}\n' % (name, body, rest)

    def source(self):
        r = self.r
        fs = ['f%d' % i for i in range(r.randint(1, 3))]
        s = 'enum { K0, K1, K2, K3 };\n' + HEAD + ''.join(self.function(f) for f in fs)
        main = []
        for f in fs:
            for _ in range(r.randint(2, 6)):
                main.append('fuel = %d; acc = %d; out(%s(%d, %d)); out(acc); out(cnt);' % (r.choice([5, 20, 60]), r.randint(0, 99), f, r.randint(-3, 12), r.choice([0, 1, 2, 5, 255, 256, -1])))
        return s + 'int main() {\n  ' + '\n  '.join(main) + '\n  return cnt & 63;\n}\n'
