"""Random programs of pointer arithmetic for the native backends.

The generator knows the element that every pointer designates, so every operation is defined; the
programs print differences, comparisons and the elements reached."""
from .typegen import TypeGen, Scalar, Ptr, Arr, Rec


class Obj:
    """An array of elements of type t; pointers to it are at elements 0..n (n: one past the end)"""

    def __init__(self, name, t, n):
        self.name, self.t, self.n = name, t, n
        self.ptrs = {}       # lvalue -> index


class Pointers(TypeGen):
    def source(self):
        r = self.r
        for _ in range(r.randint(1, 3)):
            self.record(ptr=False)
        self.recs = [t for t in self.recs if self.size(t) < 25]
        self.vals = {}
        self.glob, self.funs, self.loc, self.body = [], [], [], []
        self.setup = []
        for n, t, lo, hi in [('vc', 'char', -128, 127), ('vb', 'unsigned char', 0, 255), ('vs', 'short', -300, 300), ('vi', 'int', -300, 300), ('vu', 'unsigned int', 0, 300), ('vh', 'unsigned short', 0, 300)] + (
                [('vl', 'long long', -300, 300), ('vq', 'unsigned long long', 0, 300)] if self.bits == 64 else []):
            (self.glob if r.random() < 0.3 else self.loc).append('%s %s = 0;\n' % (t, n))
            self.vals[n] = (0, lo, hi)
        self.objs = [self.object() for _ in range(r.randint(1, 3))]
        self.objs = [o for o in self.objs if o]
        for _ in range(r.randint(12, 40)):
            self.step(r.choice(self.objs))
        for o in self.objs:
            for p, k in o.ptrs.items():
                self.w('out(%s - %s);' % (p, o.name))
        return ''.join(self.text) + ''.join(self.glob) + ''.join(self.funs) + 'int main() {\n  int k;\n  ' + '  '.join(self.loc) + '\n  '.join([''] + self.setup + self.body) + '\n  return 0;\n}\n'

    def w(self, s):
        self.body.append(s)

    def elem(self):
        r = self.r
        k = r.random()
        if k < 0.3 or not self.recs and k < 0.75:
            return r.choice(self.scalars)
        if k < 0.75:
            return r.choice(self.recs)
        if k < 0.9:
            return Arr(r.choice(self.scalars + self.recs), r.randint(1, 5))
        return Ptr(r.choice(self.scalars))

    def object(self):
        r = self.r
        t = self.elem()
        n = r.randint(3, 11)
        name = self.fresh('A')
        o = Obj(name, t, n)
        k = r.random()
        if k < 0.4:
            self.glob.append(self.decl(Arr(t, n), name) + ';\n')
        elif k < 0.7:
            self.loc.append(self.decl(Arr(t, n), name) + ';\n')
        else:
            self.glob.append(self.decl(Ptr(t), name) + ';\n')
            self.setup.append('%s = malloc(%d * sizeof(*%s));' % (name, n, name))
            self.note('objects from malloc')
        # the elements are distinguished by one scalar member
        ls = [(p, lt) for p, lt in self.leaves(t) if isinstance(lt, Scalar)]
        o.leaf = r.choice(ls) if ls else None
        if o.leaf:
            self.setup.append('for (k = 0; k < %d; k += 1) %s[k]%s = k * 7 + %d;' % (n, name, o.leaf[0], r.randint(1, 40)))
        # pointers in variables, arrays, members
        P = Ptr(t)
        for _ in range(r.randint(2, 4)):
            p = self.fresh('p')
            k = r.random()
            where = self.glob if r.random() < 0.4 else self.loc
            if k < 0.65:
                where.append(self.decl(P, p) + ';\n')
                lv = p
            elif k < 0.8:
                where.append(self.decl(Arr(P, 3), p) + ';\n')
                lv = '%s[%d]' % (p, r.randrange(3))
            else:
                h = self.fresh('H')
                self.glob.insert(0, 'struct %s { char c; %s; short s; };\n' % (h, self.decl(P, 'q')))
                where.append('struct %s %s;\n' % (h, p))
                lv = p + '.q'
            i = r.randint(0, n)
            o.ptrs[lv] = i
            self.setup.append('%s = %s;' % (lv, r.choice(['%s + %d' % (name, i), '&%s[%d]' % (name, i), '%d + %s' % (i, name)]) if i else name))
        # functions
        f = self.fresh('f')
        self.funs.append('%s { return p + n; }\n' % self.decl_fun(P, f + 'adv', self.decl(P, 'p') + ', int n'))
        self.funs.append('int %sdist(%s, %s) { return a - b; }\n' % (f, self.decl(P, 'a'), self.decl(P, 'b')))
        self.funs.append('int %sless(%s, %s) { return a < b; }\n' % (f, self.decl(P, 'a'), self.decl(Arr(t, 3), 'b') if not isinstance(t, Arr) else self.decl(P, 'b')))
        self.funs.append('void %smove(%s, int n) { *a += n; }\n' % (f, self.decl(Ptr(P), 'a')))
        o.f = f
        self.note('elements: ' + ('records' if isinstance(t, Rec) else 'arrays' if isinstance(t, Arr) else 'pointers' if isinstance(t, Ptr) else 'scalars'))
        return o

    def decl_fun(self, P, name, params):
        """Declaration of a function returning a pointer to anything, arrays included"""
        return self.decl(P, '%s(%s)' % (name, params))

    def num(self, v):
        """An expression whose value is v"""
        r = self.r
        k = r.random()
        if k < 0.35:
            return str(v) if v >= 0 else '(%d)' % v
        c = [n for n, (cur, lo, hi) in self.vals.items() if lo <= v <= hi and (n not in self.touched or cur == v)]
        if not c:
            return '(%d)' % v
        if k < 0.75:
            n = r.choice(c)
            if self.vals[n][0] != v:
                self.pre.append('%s = %d;' % (n, v))
                self.vals[n] = (v,) + self.vals[n][1:]
            self.touched.add(n)
            return n
        n = r.choice([n for n in self.vals if self.vals[n][1] < 0])
        cur = self.vals[n][0]
        self.touched.add(n)
        return '(%s + %d)' % (n, v - cur) if v >= cur else '(%s - %d)' % (n, cur - v)

    def ptr(self, o, depth=1):
        """(expression, index, precedence is primary) of a pointer into o"""
        r = self.r
        lv = r.choice(list(o.ptrs))
        i = o.ptrs[lv]
        k = r.random()
        if depth <= 0 or k < 0.3:
            return lv, i
        if k < 0.4:
            return o.name, 0
        if k < 0.5:
            j = r.randint(0, o.n)
            return '(&%s[%s])' % (o.name, self.num(j)), j
        e, i = self.ptr(o, depth - 1)
        j = r.randint(0, o.n)
        d = j - i
        k = r.random()
        if k < 0.25:
            return '(%s + %s)' % (e, self.num(d)), j
        if k < 0.45:
            return '(%s - %s)' % (e, self.num(-d)), j
        if k < 0.55:
            return '(%s + %s)' % (self.num(d), e), j
        if k < 0.65 and 0 <= j < o.n:
            return '(&%s[%s])' % (e, self.num(d)), j
        if k < 0.72:
            return '%sadv(%s, %s)' % (o.f, e, self.num(d)), j
        if k < 0.82:
            e2, i2 = self.ptr(o, depth - 1)
            c = r.random() < 0.5
            return '(%s ? %s : %s)' % (self.cond(o, c), e, e2), i if c else i2
        if k < 0.9 and i < o.n:
            return '(&*%s)' % e, i
        return '((%s) ((char*) %s + %s * sizeof(*%s)))' % (self.decl(Ptr(o.t), '').strip(), e, self.num(d) if d >= 0 else '(%d)' % d, o.name) if d >= 0 and not isinstance(o.t, (Arr, Ptr)) else '(%s + %s)' % (e, self.num(d)), j

    def cond(self, o, v):
        a, i = self.ptr(o, 0)
        b, j = self.ptr(o, 0)
        ops = [('<', i < j), ('<=', i <= j), ('>', i > j), ('>=', i >= j), ('==', i == j), ('!=', i != j)]
        return '%s %s %s' % (a, self.r.choice([x for x, y in ops if y == v]), b)

    def step(self, o):
        r = self.r
        self.pre, self.touched = [], set()
        at = len(self.body)
        k = r.random()
        lv = r.choice(list(o.ptrs))
        i = o.ptrs[lv]
        sc = isinstance(o.t, Scalar)
        j = r.randint(0, o.n)
        if k < 0.14:
            e, j = self.ptr(o, 2)
            self.w('%s = %s; out(%s - %s);' % (lv, e, lv, o.name))
            o.ptrs[lv] = j
            self.note('assignments')
        elif k < 0.22:
            op = r.choice('+-')
            self.w('%s %s= %s; out(%s - %s);' % (lv, op, self.num(j - i if op == '+' else i - j), lv, o.name))
            o.ptrs[lv] = j
            self.note('compound assignments')
        elif k < 0.32:
            # increments
            ops = ([('++', 1)] if i < o.n else []) + ([('--', -1)] if i > 0 else [])
            op, d = r.choice(ops)
            post = r.random() < 0.5
            t = lv + op if post else op + lv
            self.w(r.choice(['out(%s - %s);' % ('(' + t + ')', o.name), 'out(%s - %s);' % (t, o.name), '%s;' % t, 'out((%s) == %s + %d);' % (t, o.name, i if post else i + d)]) + ' out(%s - %s);' % (lv, o.name))
            o.ptrs[lv] = i + d
            self.note('increments')
        elif k < 0.52:
            # differences
            a, i = self.ptr(o, 2)
            b, j = self.ptr(o, 2)
            d = '%s - %s' % (a, b)
            f = r.choice(['out(%s);', 'out(%s);', 'out((%s) * 3);', 'out((%s) / 2);', 'out((%s) %% 3);', 'out((%s) < 0);', 'out((%s) > -2);', 'out(-(%s));', 'out((int) (%s));', 'vi = %s; out(vi);', 'vs = %s; out(vs);', 'vc = %s; out(vc);',
                          'out(%s + 5);', 'out((%s) >> 1);', 'out(%s == 0);', 'if (%s) out(1); else out(0);', 'out((%s) & 255);'] + (['outl(%s);', 'outl(%s);', 'vl = %s; outl(vl);', 'outl((%s) * 5000000000LL);'] if self.bits == 64 else []))
            self.w(f % d)
            for n in ('vi', 'vs', 'vc', 'vl'):
                if f.startswith(n):
                    self.vals[n] = (i - j,) + self.vals[n][1:]
            self.note('differences')
        elif k < 0.6:
            a, i = self.ptr(o, 1)
            b, j = self.ptr(o, 1)
            self.w(r.choice(['out(%sdist(%s, %s));' % (o.f, a, b), 'out(%sless(%s, %s));' % (o.f, a, b), '%smove(&%s, %s); out(%s - %s);' % (o.f, lv, self.num(j - o.ptrs[lv]), lv, o.name),
                             'out((char*) %s - (char*) %s);' % (a, b)]))
            if 'move(' in self.body[-1]:
                o.ptrs[lv] = j
            self.note('calls')
        elif k < 0.72:
            a, i = self.ptr(o, 1)
            b, j = self.ptr(o, 1)
            op = r.choice(['<', '<=', '>', '>=', '==', '!='])
            self.w(r.choice(['out(%s %s %s);' % (a, op, b), 'if (%s %s %s) out(7); else out(8);' % (a, op, b), 'out(!%s);' % lv, 'out(%s != 0);' % a, 'out(%s && %s > %s);' % (lv, a, b), 'out(0 == %s || %s == %s);' % (lv, a, b),
                             'out(!(%s %s %s));' % (a, op, b), 'k = 3; while (k > 0 && %s %s %s) k -= 1; out(k);' % (a, op, b)]))
            self.note('comparisons')
        elif k < 0.86 and o.leaf and o.n > 0:
            # reached elements
            p, lt = o.leaf
            e, i = self.ptr(o, 2)
            j = r.randrange(o.n)
            x = r.choice(['%s[%s]' % (e, self.num(j - i)), '(*(%s + %s))' % (e, self.num(j - i)), '(*(%s - %s))' % (e, self.num(i - j)), '(%s + %s)[0]' % (e, self.num(j - i))])
            if sc and i < o.n and r.random() < 0.3:
                x = '(*%s)' % e
            k = r.random()
            x += p
            if k < 0.5:
                self.w(self.out(x, lt))
            elif k < 0.8:
                self.w('%s = %d; ' % (x, r.randint(0, 100)) + ' '.join(self.out('%s[%d]%s' % (o.name, m, p), lt) for m in range(o.n)))
            else:
                self.w('%s %s= 1; ' % (x, r.choice('+-^')) + self.out('%s[%d]%s' % (o.name, j, p), lt))
            self.note('elements')
        elif k < 0.92 and sc:
            # *p++
            c = (['(*%s++)', '(*%s)++ + 0 * 1'] if i < o.n else []) + (['(*++%s)'] if i < o.n - 1 else []) + (['(*--%s)'] if i > 0 else []) + (['(*%s--)'] if 0 < i < o.n else [])
            if not c:
                return
            x = r.choice(c)
            d = 1 if x in ('(*%s++)', '(*++%s)') else -1 if '--' in x else 0
            if d and r.random() < 0.5:
                self.w('%s = %d;' % (x % lv, r.randint(0, 100)))
            else:
                self.w(self.out(x % lv, o.t))
            o.ptrs[lv] = i + d
            self.w('out(%s - %s); ' % (lv, o.name) + ' '.join(self.out('%s[%d]' % (o.name, m), o.t) for m in range(o.n)))
            self.note('dereferences of increments')
        else:
            # walks
            if not o.leaf:
                return
            p, lt = o.leaf
            x = '(*%s)' % lv + p
            if p.startswith('.') and r.random() < 0.5:
                x = '%s->%s' % (lv, p[1:])
            o1 = self.out(x, lt)
            f = r.choice(['for (%(p)s = %(a)s; %(p)s < %(a)s + %(n)d; %(p)s++) %(o)s', 'for (%(p)s = %(a)s; %(p)s != &%(a)s[%(n)d]; ++%(p)s) %(o)s', 'for (%(p)s = %(a)s + %(n)d; %(p)s > %(a)s; ) { --%(p)s; %(o)s }',
                          '%(p)s = %(a)s; while (%(p)s - %(a)s < %(n)d) { %(o)s %(p)s += 1; }', '%(p)s = %(a)s; do { %(o)s %(p)s = %(p)s + 1; } while (%(p)s <= %(a)s + %(n)d - 1);',  'for (%(p)s = %(a)s + %(n)d; %(p)s - %(a)s > 0; ) { %(p)s -= 1; %(o)s }'])
            self.w(f % dict(p=lv, a=o.name, n=o.n, o=o1))
            o.ptrs[lv] = 0 if '--' in f or '-=' in f else o.n
            self.note('walks')
        # settings of the variables come first
        if self.pre:
            self.body[at:at] = [' '.join(self.pre)]
