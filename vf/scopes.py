"""Random programs that declare few names again and again, in every scope and name space, and print
what they designate."""
POOL = ['a', 'b', 'x', 'f', 'T', 'val', 'main2', 'i']


class Var:
    def __init__(self, kind, depth, **k):
        self.kind, self.depth = kind, depth
        self.__dict__.update(k)


class Scopes:
    def __init__(self, rng, bits, sh=False):
        self.r, self.bits, self.sh = rng, bits, sh
        self.n = 0
        self.stats = {}
        self.env = [{}]
        self.members = {}

    def note(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def num(self):
        self.n += 1
        return self.n * 7 + self.r.randint(0, 6)

    def find(self, n):
        for e in reversed(self.env):
            if n in e:
                return e[n]

    def use(self, n):
        """Statements that print what n designates (or change it)"""
        r = self.r
        v = self.find(n)
        if v is None:
            return ''
        if sum(n in e for e in self.env) > 1:
            self.note('uses of a name that hides another: ' + v.kind)
        k = r.random()
        if v.kind == 'int':
            return r.choice(['out(%s);', '%s = %s + 1;', '%s += 2; out(%s);', 'out(%s * 2 + 1);', 'if (%s > 0) out(%s); else out(-%s);', 'out(id(%s));', '{ int *ptr9 = &%s; *ptr9 += 1; out(%s); }' if not self.sh else 'out(%s);']).replace('%s', n)
        if v.kind == 'char':
            return 'out(%s); out(sizeof(%s));' % (n, n)
        if v.kind == 'fun':
            return r.choice(['out(%s(%d));', 'out(%s(%d) + 1);', 'out(id(%s(%d)));']) % (n, r.randint(0, 9)) if k < 0.8 or self.sh else 'out(apply(%s, %d));' % (n, r.randint(0, 9))
        if v.kind == 'ptr':
            return r.choice(['out(%s(%d));', 'out((*%s)(%d));', 'out(apply(%s, %d));']) % (n, r.randint(0, 9))
        if v.kind == 'enum':
            return r.choice(['out(%s);', 'out(%s + 1);', 'out(id(%s));']) % n
        if v.kind == 'array':
            return r.choice(['out(%s[1]);', 'out(%s[0] + %s[1]);', '%s[1] = %s[0] + 3; out(%s[1]);', 'out(sizeof(%s) / sizeof(%s[0]));'] if not self.sh else ['out(%s[1]);', '%s[1] = %s[0] + 3; out(%s[1]);']).replace('%s', n)
        if v.kind == 'struct':
            return r.choice(['out(%s.a); out(%s.%s);', '%s.a = %s.%s + 1; out(%s.a);', 'out(sizeof(%s)); out((&%s)->%s);']).replace('.%s', '.' + v.member).replace('->%s', '->' + v.member).replace('%s', n)
        return ''

    def declare(self, local, names, fresh=None):
        """A declaration of one of the names in the innermost scope"""
        r = self.r
        # the local variables of scripts do not hide each other
        c = [n for n in names if n not in self.env[-1] and not (self.sh and local and any(n in e for e in self.env[1:]))]
        if not c:
            return ''
        n = r.choice(c)
        if self.find(n):
            self.note('declarations that hide another')
        k = r.random()
        init = self.find(n)
        if self.sh:
            if local:
                self.env[-1][n] = Var('int', len(self.env))
                return 'int %s = %d;' % (n, self.num())
            k = k * 0.4 if k < 0.7 else k
        if k < 0.4:
            # the initialiser uses other names only
            others = [m for m in names if m != n and self.find(m) and self.find(m).kind in ('int', 'enum', 'char')]
            e = '%s + %d' % (r.choice(others), self.num()) if others and local and r.random() < 0.4 else str(self.num())
            st = 'static ' if local and r.random() < 0.15 and e.isdigit() else ''
            if st:
                self.note('static variables')
            self.env[-1][n] = Var('int', len(self.env))
            return '%sint %s = %s;' % (st, n, e)
        if k < 0.47:
            self.env[-1][n] = Var('char', len(self.env))
            return r.choice(['char %s = %d;', 'unsigned char %s = %d;']) % (n, r.randint(1, 100))
        if k < 0.62:
            self.env[-1][n] = Var('ptr', len(self.env))
            return 'int (*%s)(int) = %s;' % (n, r.choice(['g1', 'g2', 'g3'])) if local else 'int (*%s)(int) = g%d;' % (n, r.randint(1, 3))
        if k < 0.75:
            self.env[-1][n] = Var('array', len(self.env))
            if self.sh:
                return 'int %s[2];' % n
            return '%s %s[2] = {%d, %d};' % (r.choice(['int', 'short', 'int']), n, self.num(), self.num())
        if k < 0.87 or local:
            if not self.structs or self.sh:
                return ''
            s, m = r.choice(self.structs)
            self.env[-1][n] = Var('struct', len(self.env), member=m)
            return 'struct %s %s = {%d, %d};' % (s, n, r.randint(1, 99), r.randint(1, 99))
        self.env[-1][n] = Var('enum', 0)
        return 'enum { %s = %d };' % (n, self.num())

    def block(self, names, depth, n=None):
        r = self.r
        self.env.append({})
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            out.append(self.declare(True, names))
            out.append(self.use(r.choice(names)))
        out += self.stmts(names, depth, r.randint(1, 4))
        self.env.pop()
        return '{ %s }' % ' '.join(x for x in out if x)

    def stmts(self, names, depth, n):
        r = self.r
        out = []
        for _ in range(n):
            k = r.random()
            if k < 0.5 or depth <= 0:
                out.append(self.use(r.choice(names)))
            elif k < 0.62:
                out.append(self.declare(True, names))
            elif k < 0.75:
                out.append(self.block(names, depth - 1))
            elif k < 0.83:
                out.append('if (%s) %s else %s' % (r.choice(['one', '!one', 'one + 1']), self.block(names, depth - 1), self.block(names, depth - 1)))
            elif k < 0.9:
                self.k += 1
                kk = 'kk%d' % self.k
                self.counters.append(kk)
                out.append(self.loop(kk, names, depth))
            elif k < 0.95 and not self.sh and self.labels:
                l = self.labels.pop()
                self.k += 1
                kk = 'kk%d' % self.k
                self.counters.append(kk)
                out.append('%s = 0; %s: %s %s += 1; if (%s < 2) goto %s;' % (kk, l, self.use(r.choice(names)) or ';', kk, kk, l))
                self.note('labels with the name of a variable')
            else:
                a = self.block(names, depth - 1)
                out.append('switch (one) { case 0: out(0); break; case 1: %s break; default: out(5); break; }' % a)
        return [x for x in out if x]

    def loop(self, kk, names, depth):
        b = self.block(names, depth - 1)
        return self.r.choice(['for (%(k)s = 0; %(k)s < 2; %(k)s += 1) %(b)s', '%(k)s = 2; while (%(k)s > 0) { %(k)s -= 1; %(b)s }', '%(k)s = 0; do { %(k)s += 1; %(b)s } while (%(k)s < 2);']) % dict(k=kk, b=b)

    def function(self, name, names, main=False):
        r = self.r
        self.k, self.counters = 0, []
        self.env.append({})
        params, args = [], []
        if not main:
            for n in r.sample(names, r.randint(0, min(3, len(names)))):
                k = r.random()
                if self.find(n):
                    self.note('parameters that hide another')
                if k < 0.7 or self.sh:
                    self.env[-1][n] = Var('int', 1)
                    params.append('int ' + n)
                    args.append(str(self.num()))
                else:
                    self.env[-1][n] = Var('ptr', 1)
                    params.append('int (*%s)(int)' % n)
                    args.append('g%d' % r.randint(1, 3))
        ls = list(POOL)
        r.shuffle(ls)
        self.labels = ls
        body = []
        # the block of the function is the scope of its parameters
        for _ in range(r.choice([0, 1, 2, 3])):
            body.append(self.declare(True, names))
            body.append(self.use(r.choice(names)))
        body += self.stmts(names, 3, r.randint(3, 8))
        self.env.pop()
        c = ''.join('int %s; ' % k for k in self.counters)
        return '%s(%s) { %s%s %s }\n' % (name, ', '.join(params), c, ' '.join(x for x in body if x), 'return 0;'), args

    def source(self):
        r = self.r
        names = r.sample(POOL, r.randint(3, 6))
        self.structs = []
        t = 'int one = 1;\nint id(int arg9) { return arg9; }\nint g1(int arg9) { return arg9 + 100; }\nint g2(int arg9) { return arg9 * 3; }\nint g3(int arg9) { return 50 - arg9; }\n'
        if not self.sh:
            t += 'int apply(int (*fun9)(int), int arg9) { return fun9(arg9); }\n'
            # tags and members have the names of the other objects
            for s in r.sample(names, r.randint(0, 2)):
                m = r.choice([n for n in names if n != 'a'] or ['y'])
                t += 'struct %s { %s };\n' % (s, r.choice(['char a; int %s;', 'int a; short %s;', 'int a; int %s;']) % m)
                self.structs.append((s, m))
                self.note('tags with the name of a variable')
        calls = []
        todo = []
        i = 0
        for _ in range(r.randint(3, 9)):
            k = r.random()
            if k < 0.45:
                t += self.declare(False, names) + '\n'
            elif k < 0.6:
                c = [n for n in names if not self.find(n)]
                if c:
                    n = r.choice(c)
                    self.env[0][n] = Var('fun', 0)
                    t += 'int %s(int arg9) { return arg9 + %d; }\n' % (n, self.num())
            else:
                i += 1
                f, args = self.function('int fn%d' % i, names)
                t += f
                calls.append('fn%d(%s);' % (i, ', '.join(args)))
        m, _ = self.function('int main', names, True)
        cs = ' '.join(calls)
        e = m.rindex('return 0;')
        return t + m[:e] + cs + ' ' + m[e:]
