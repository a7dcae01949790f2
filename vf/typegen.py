"""Random object types for the native backends: declarations, layouts, accesses, initialisers.

The generated programs know statically which object every pointer designates, so every
access they make is defined."""

SCALARS = [('char', 1, True), ('unsigned char', 1, False), ('short', 2, True), ('unsigned short', 2, False), ('int', 4, True), ('unsigned int', 4, False), ('signed char', 1, True), ('unsigned', 4, False)]
SCALARS64 = [('long long', 8, True), ('unsigned long long', 8, False)]


class Scalar:
    def __init__(self, name, size, signed):
        self.name, self.size, self.signed = name, size, signed


class Ptr:
    def __init__(self, to):
        self.to = to


class Arr:
    def __init__(self, elem, n):
        self.elem, self.n = elem, n


class Rec:
    def __init__(self, kind, name, members):
        self.kind, self.name, self.members, self.typedef = kind, name, members, None


class Fun:
    """Pointer to function of ints giving an int"""

    def __init__(self, n):
        self.n = n


class TypeGen:
    def __init__(self, rng, bits, deep=False):
        self.r, self.bits, self.deep = rng, bits, deep
        self.scalars = [Scalar(*s) for s in SCALARS + (SCALARS64 if bits == 64 else [])]
        self.int = self.scalars[4]
        self.recs = []
        self.n = 0
        self.text = []
        self.stats = {}

    def note(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def fresh(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    # -- declarations ------------------------------------------------------
    def base(self, t):
        if isinstance(t, Scalar):
            return t.name
        if t.typedef and self.r.random() < 0.5:
            return t.typedef
        return '%s %s' % (t.kind, t.name)

    def decl(self, t, name):
        """C declaration of name with type t"""
        d = name
        while True:
            if isinstance(t, Ptr):
                d = '*' + d
                t = t.to
                if isinstance(t, (Arr, Fun)):
                    d = '(' + d + ')'
            elif isinstance(t, Arr):
                d += '[%d]' % t.n
                t = t.elem
            elif isinstance(t, Fun):
                return 'int ' + d + '(%s)' % ', '.join('int ' + chr(97 + i) for i in range(t.n))
            else:
                return self.base(t) + ' ' + d

    def rtype(self, depth=2, ptr=True):
        r = self.r
        k = r.random()
        if depth <= 0 or k < 0.42:
            return r.choice(self.scalars)
        if k < 0.62:
            return Arr(self.rtype(depth - 1, ptr), r.randint(1, 4))
        recs = self.recs if ptr else [x for x in self.recs if not self.hasptr(x)]
        if k < 0.85 and recs:
            return r.choice(recs)
        if ptr:
            t = r.choice(self.scalars + self.recs)
            return Ptr(t) if r.random() < 0.8 else Ptr(Ptr(t))
        return r.choice(self.scalars)

    def record(self, unions=True, ptr=True):
        r = self.r
        kind = 'union' if unions and r.random() < 0.2 else 'struct'
        rec = Rec(kind, self.fresh('R'), [])
        text = self.members(rec, r.randint(1, 6), 1, unions, ptr and kind == 'struct')    # no pointers in unions, whose bytes are observed
        td = r.random()
        if td < 0.3:
            rec.typedef = rec.name
            self.text.append('typedef %s %s {\n%s} %s;\n' % (kind, rec.name, text, rec.name))
        elif td < 0.4:
            self.text.append('%s %s {\n%s};\ntypedef %s %s %s;\n' % (kind, rec.name, text, kind, rec.name, rec.name))
            rec.typedef = rec.name
        else:
            self.text.append('%s %s {\n%s};\n' % (kind, rec.name, text))
        self.recs.append(rec)
        return rec

    def members(self, rec, n, depth, unions, ptr):
        r = self.r
        text = ''
        for _ in range(n):
            k = r.random()
            ind = '  ' * depth
            if k < 0.12 and depth < 4:
                kind = 'union' if unions and r.random() < 0.4 else 'struct'
                sub = Rec(kind, None, [])
                body = self.members(sub, r.randint(1, 3), depth + 1, unions, ptr and kind == 'struct')
                text += '%s%s {\n%s%s};\n' % (ind, kind, body, ind)
                rec.members.append((None, sub))
                self.note('anonymous members')
            elif k < 0.22 and depth < 4:
                # named member of a type defined in place
                kind = 'union' if unions and r.random() < 0.3 else 'struct'
                sub = Rec(kind, self.fresh('R'), [])
                body = self.members(sub, r.randint(1, 3), depth + 1, unions, ptr and kind == 'struct')
                m = self.fresh('m')
                t = sub
                if r.random() < 0.4:
                    t = Arr(sub, r.randint(1, 3))
                    text += '%s%s %s {\n%s%s} %s[%d];\n' % (ind, kind, sub.name, body, ind, m, t.n)
                else:
                    text += '%s%s %s {\n%s%s} %s;\n' % (ind, kind, sub.name, body, ind, m)
                rec.members.append((m, t))
                self.note('member types defined in place')
            elif k < 0.28 and ptr and rec.name and depth == 1:
                m = self.fresh('m')
                rec.members.append((m, Ptr(rec)))
                text += '%s%s %s *%s;\n' % (ind, rec.kind, rec.name, m)
                self.note('members pointing to their own type')
            elif k < 0.36:
                # several declarators
                b = r.choice(self.scalars)
                ds = []
                for _ in range(r.randint(2, 3)):
                    m = self.fresh('m')
                    j = r.random()
                    t = b if j < 0.5 else Arr(b, r.randint(1, 4)) if j < 0.8 or not ptr else Ptr(b)
                    rec.members.append((m, t))
                    ds.append(self.decl(t, m)[len(b.name) + 1:])
                text += '%s%s %s;\n' % (ind, b.name, ', '.join(ds))
            else:
                m = self.fresh('m')
                t = self.rtype(2, ptr)
                rec.members.append((m, t))
                text += '%s%s;\n' % (ind, self.decl(t, m))
        return text

    # -- access paths ------------------------------------------------------
    def leaves(self, t, path='', limit=40):
        """All (path, scalar or pointer type) of the scalar leaves of an object; unions give their first scalar member only"""
        if isinstance(t, Arr):
            for i in range(t.n):
                yield from self.leaves(t.elem, '%s[%d]' % (path, i))
        elif isinstance(t, Rec):
            ms = t.members if t.kind == 'struct' else t.members[:1]
            for m, mt in ms:
                yield from self.leaves(mt, path + '.' + m if m else path)
        else:
            yield path, t

    def hasptr(self, t):
        if isinstance(t, (Ptr, Fun)):
            return True
        if isinstance(t, Arr):
            return self.hasptr(t.elem)
        if isinstance(t, Rec):
            return any(self.hasptr(m) for _, m in t.members)
        return False

    def size(self, t):
        """Upper bound of the number of leaves"""
        if isinstance(t, Arr):
            return t.n * self.size(t.elem)
        if isinstance(t, Rec):
            return sum(self.size(m) for _, m in t.members)
        return 1

    def hasunion(self, t):
        if isinstance(t, Arr):
            return self.hasunion(t.elem)
        if isinstance(t, Rec):
            return t.kind == 'union' or any(self.hasunion(m) for _, m in t.members)
        return False

    def lvalue(self, base, t):
        """A random subobject of the object base of type t: (expression, type), spelled in a random way"""
        r = self.r
        e = base
        while True:
            if isinstance(t, Rec):
                m, mt = r.choice(t.members)
                if m is None:
                    t = mt
                    continue
                k = r.random()
                if e.startswith('*') or e.startswith('&'):
                    e = '(' + e + ')'
                e = '%s.%s' % (e, m) if k < 0.6 else '(&%s)->%s' % (e, m) if k < 0.85 else '(*&%s).%s' % (e, m)
                t = mt
            elif isinstance(t, Arr):
                i = r.randrange(t.n)
                if e.startswith('*') or e.startswith('&'):
                    e = '(' + e + ')'
                ix = self.index(i)
                k = r.random()
                e = '%s[%s]' % (e, ix) if k < 0.6 else '*(%s + %s)' % (e, ix) if k < 0.85 else '*(%s + %s)' % (ix, e) if k < 0.93 else '(&%s[%d])[%d]' % (e, 0, i)
                t = t.elem
            else:
                return e, t
            if isinstance(t, (Rec, Arr)) and r.random() < 0.06:
                return e, t

    def index(self, i):
        k = self.r.random()
        if k < 0.5:
            return str(i)
        if k < 0.75:
            return 'ix%d' % i if i < 4 else str(i)
        return '(ix1 + %d)' % (i - 1)

    def value(self, t):
        r = self.r
        if t.size == 8:
            return r.choice(['%dLL' % r.randint(-2**40, 2**40), str(r.randint(-9, 9)), '0x%xLL' % r.getrandbits(60)])
        hi = {1: 127, 2: 32767, 4: 2**31 - 1}[t.size]
        if t.signed:
            return str(r.choice([r.randint(-9, 9), r.randint(-hi, hi), hi, -hi]))
        v = r.choice([r.randint(0, 9), r.randint(0, hi), hi])
        return str(v)

    # -- initialisers ------------------------------------------------------
    def init(self, t, local, targets, top=True):
        """A braced initialiser, or an expression.  targets: {type key: [expression]}"""
        r = self.r
        if isinstance(t, Scalar):
            if r.random() < 0.12 and top:
                return '{%s}' % self.value(t)
            if r.random() < 0.15:
                return r.choice(['(3 + 4 * 2)', "'a'", 'sizeof(int)', '-(5)', '1 << 3', '7 == 7', '(1 ? 2 : 3)', '~0 & 15'])
            if local and r.random() < 0.25 and t.size <= 4:
                return r.choice(['ix2', 'ix3 * 4', 'add3(1, ix2, 3)', 'ix1 ? 5 : 6', '(ix1 + ix2) * ix3'])
            return self.value(t)
        if isinstance(t, Fun):
            return 0
        if isinstance(t, Ptr):
            if isinstance(t.to, Scalar) and t.to.name == 'char' and r.random() < 0.5:
                self.note('strings as pointers')
                return '"s%d"' % r.randint(0, 99)
            c = targets.get(self.key(t.to))
            return r.choice(c) if c and r.random() < 0.8 else '0'
        if isinstance(t, Arr):
            if isinstance(t.elem, Scalar) and t.elem.name in ('char',) and r.random() < 0.5:
                self.note('strings as arrays')
                n = r.randint(0, t.n)
                s = ''.join(r.choice('abcxyz 0') for _ in range(n))
                return '"%s"' % s
            n = r.randint(1, t.n)
            if n < t.n:
                self.note('partial initialisers')
            return '{%s%s}' % (', '.join(str(self.init(t.elem, local, targets, False)) for _ in range(n)), ',' if r.random() < 0.2 else '')
        if t.kind == 'union':
            return '{%s}' % self.init(t.members[0][1], local, targets, False)
        n = r.randint(1, len(t.members))
        if n < len(t.members):
            self.note('partial initialisers')
        return '{%s%s}' % (', '.join(str(self.init(m, local, targets, False)) for _, m in t.members[:n]), ',' if r.random() < 0.2 else '')

    def key(self, t):
        if isinstance(t, Scalar):
            return t.name
        if isinstance(t, Ptr):
            return '*' + self.key(t.to)
        if isinstance(t, Arr):
            return '[%d]' % t.n + self.key(t.elem)
        if isinstance(t, Fun):
            return '()%d' % t.n
        return t.name or str(id(t))

    # -- observation -------------------------------------------------------
    def show(self, e, t, limit=24):
        """Statements printing the leaves of the object e"""
        ls = list(self.leaves(t))
        if len(ls) > limit:
            ls = self.r.sample(ls, limit)
        o = []
        for p, lt in ls:
            x = e + p
            if isinstance(lt, Scalar):
                o.append(self.out(x, lt))
        return ' '.join(o)

    def out(self, x, t):
        return ('outl(%s);' if t.size == 8 else 'out(%s);') % x


PRE = '''
int ix0 = 0; int ix1 = 1; int ix2 = 2; int ix3 = 3;
int add3(int a, int b, int c) { return a * 100 + b * 10 + c; }
void dump(char *p, int n) { int i = 0; while (i < n) { out(p[i] & 255); i += 1; } }
'''


class Layout(TypeGen):
    """Programs about the layout of objects, accesses to members and elements, and pointers"""

    def source(self):
        r = self.r
        for _ in range(r.randint(1, 4)):
            self.record()
        self.recs = [t for t in self.recs if self.size(t) < 60] or self.recs[:1]
        globs, body, locs = [], [], []
        vars_ = []      # (expr, type)
        w = body.append

        def var(local):
            t = r.choice(self.recs + self.recs + [self.rtype(2)]) if r.random() < 0.8 else self.rtype(3)
            if self.size(t) > 200 or isinstance(t, Ptr):
                t = self.recs[0]
            n = self.fresh('l' if local else 'g')
            (locs if local else globs).append(self.decl(t, n) + ';')
            vars_.append((n, t))
            if local:
                w('zero((char*)&%s, sizeof(%s));' % (n, n))
        for _ in range(r.randint(1, 4)):
            var(False)
        for _ in range(r.randint(1, 3)):
            var(True)
        # arrays of records walked by pointers
        walks = []
        for _ in range(r.randint(1, 3)):
            t = r.choice(self.recs + [r.choice(self.scalars), Arr(r.choice(self.scalars), r.randint(2, 3))])
            if self.size(t) > 60:
                continue
            n = r.randint(2, 6)
            a, p = self.fresh('a'), self.fresh('p')
            loc = r.random() < 0.4
            (locs if loc else globs).append(self.decl(Arr(t, n), a) + ';')
            if loc:
                w('zero((char*)%s, sizeof(%s));' % (a, a))
            (locs if r.random() < 0.7 else globs).append(self.decl(Ptr(t), p) + ';')
            vars_.append((a, Arr(t, n)))
            i = r.randrange(n)
            w('%s = %s;' % (p, r.choice(['&%s[%d]', '%s + %d', '&%s[0] + %d']) % (a, i)))
            walks.append([p, a, t, n, i])
        for t in self.recs:
            w('out(sizeof(%s)); out(sizeof(%s));' % (self.base(t), self.base(t) + ' [3]'))
            self.note('sizes', 2)
        for n, t in vars_:
            w('out(sizeof(%s)); out(sizeof %s);' % (n, n))
            self.note('sizes', 2)
            for _ in range(3):
                e, et = self.lvalue(n, t)
                w('out((char*)&%s - (char*)&%s); out(sizeof(%s));' % (e, n, e))
                self.note('offsets')
        for _ in range(r.randint(15, 40)):
            k = r.random()
            if k < 0.45:
                n, t = r.choice(vars_)
                e, et = self.lvalue(n, t)
                if isinstance(et, Scalar):
                    if r.random() < 0.6:
                        w('%s = %s;' % (e, self.value(et)))
                    else:
                        op = r.choice(['^=', '|=', '&='] + (['+=', '-=', '<<='] if not et.signed or et.size < 4 else []))
                        w('%s %s %s;' % (e, op if not (op == '<<=' and et.signed) else '+=', r.choice(['1', '2', '3', '5', 'ix2', 'ix3'])))
                    w(self.out(self.lvalue_same(e), et))
                    self.note('scalar members written')
                elif isinstance(et, (Rec, Arr)):
                    w('out(sizeof(%s));' % e)
                elif isinstance(et, Ptr):
                    # point to a suitable object
                    c = [x for x in self.objects(vars_, et.to)]
                    if c:
                        w('%s = &%s;' % (e, c[0]))
                        w('out((char*)%s - (char*)&%s);' % (e, c[0]))
                        if isinstance(et.to, Scalar):
                            w('*%s = %s; %s' % (e, self.value(et.to), self.out('*' + e, et.to)))
                            w(self.out(c[0], et.to))
                        elif isinstance(et.to, Rec) and et.to.members:
                            ls = [x for x in self.leaves(et.to) if isinstance(x[1], Scalar)]
                            if ls:
                                p, lt = r.choice(ls)
                                if p.startswith('.'):
                                    e = '(%s)' % e
                                    w('%s->%s = %s; %s' % (e, p[1:], self.value(lt), self.out(c[0] + p, lt)))
                        self.note('pointer members')
            elif k < 0.8 and walks:
                q = r.choice(walks)
                p, a, t, n, i = q
                j = r.random()
                if j < 0.3:
                    d = r.choice([x for x in range(-i, n - i)])
                    st = ['%s += %d;' % (p, d), '%s = %s + %s;' % (p, p, '(%d)' % d), '%s -= %d;' % (p, -d), '%s = %d + %s;' % (p, d, p), '%s = &%s[%d];' % (p, p, d)]
                    if d == 1:
                        st += ['%s++;' % p, '++%s;' % p] * 3
                    if d == -1:
                        st += ['%s--;' % p, '--%s;' % p] * 3
                    w(r.choice(st))
                    q[4] += d
                    self.note('pointer arithmetic')
                elif j < 0.5:
                    o = r.randrange(n)
                    w('out(%s - &%s[%d]); out(&%s[%d] - %s); out(%s < %s + %d); out(%s == &%s[%d]); out(%s >= %s + %d);' % (p, a, o, a, o, p, p, a, o, p, a, o, p, a, o))
                    self.note('pointer comparisons', 5)
                else:
                    o = r.randrange(n) - i
                    base = r.choice(['%s[%d]' % (p, o), '(*(%s + %d))' % (p, o)] + (['(*%s)' % p] * 2 if o == 0 else []))
                    if o == 0 and isinstance(t, Rec) and r.random() < 0.5:
                        base = None
                    e, et = self.lvalue(base or '(*%s)' % p, t)
                    if base is None and e.startswith('(*%s).' % p):
                        e = '%s->' % p + e[len('(*%s).' % p):]
                    if isinstance(et, Scalar):
                        if i + 1 < n and r.random() < 0.2 and isinstance(t, Scalar):
                            w('*%s++ = %s;' % (p, self.value(t)))
                            w(self.out('%s[-1]' % p, t))
                            q[4] += 1
                        elif i > 0 and r.random() < 0.2 and isinstance(t, Scalar):
                            w('*--%s = %s;' % (p, self.value(t)))
                            w(self.out('%s[%d]' % (a, i - 1), t))
                            q[4] -= 1
                        else:
                            w('%s = %s;' % (e, self.value(et)))
                            w(self.out(e, et))
                        self.note('scalar members written through a pointer')
            elif k < 0.88:
                # structure assignment
                n, t = r.choice(vars_)
                if isinstance(t, Arr) and isinstance(t.elem, Rec) and t.n >= 2:
                    i, j = r.sample(range(t.n), 2)
                    w('%s[%d] = %s[%d]; %s' % (n, i, n, j, self.show('%s[%d]' % (n, i), t.elem, 6)))
                    self.note('structure assignments')
                elif isinstance(t, Rec):
                    x = self.fresh('l')
                    locs.append(self.decl(t, x) + ';')
                    w('%s = %s; %s' % (x, n, self.show(x, t, 8)))
                    self.note('structure assignments')
            else:
                n, t = r.choice(vars_)
                w(self.show(n, t, 10))
        for n, t in vars_:
            if not self.hasptr(t):
                w('dump((char*)&%s, sizeof(%s));' % (n, n))
            w(self.show(n, t))
        stmts = '\n  '.join(body)
        order = list(globs)
        r.shuffle(order)
        return ''.join(self.text) + '\n'.join(order) + '\n' + PRE + 'void zero(char *p, int n) { while (n > 0) { n -= 1; p[n] = 0; } }\n' + 'int main() {\n  ' + '\n  '.join(locs) + '\n  ' + stmts + '\n  return 0;\n}\n'

    def lvalue_same(self, e):
        return e

    def objects(self, vars_, t):
        """Objects of type t among the variables"""
        k = self.key(t)
        res = []
        for n, vt in vars_:
            if self.key(vt) == k:
                res.append(n)
            elif isinstance(vt, Arr) and self.key(vt.elem) == k:
                res.append('%s[%d]' % (n, self.r.randrange(vt.n)))
            elif isinstance(vt, Rec) and vt.kind == 'struct':
                for m, mt in vt.members:
                    if m and self.key(mt) == k:
                        res.append('%s.%s' % (n, m))
        self.r.shuffle(res)
        return res


class Inits(TypeGen):
    """Programs about initialisers of global and local variables"""

    def source(self):
        r = self.r
        for _ in range(r.randint(0, 3)):
            self.record(ptr=True)
        self.recs = [t for t in self.recs if self.size(t) < 40]
        globs, funs, main = [], [], []
        targets = {}
        tl = ['int tgt1 = 11;', 'int tgt2[3] = {21, 22, 23};', 'char tgc = 99;', 'short tgs[2] = {7, 8};', 'unsigned char tgu[3];', 'int *tgp = &tgt1;']
        targets['int'] = ['&tgt1', 'tgt2', '&tgt2[1]', 'tgt2 + 2', '&tgt2[2]']
        targets['char'] = ['&tgc']
        targets['short'] = ['tgs', '&tgs[1]']
        targets['unsigned char'] = ['tgu']
        targets['*int'] = ['&tgp']
        later = {}
        for i in range(r.randint(2, 7)):
            t = self.rtype(3)
            if self.size(t) > 80:
                t = r.choice(self.scalars)
            n = self.fresh('g')
            k = r.random()
            st = 'static ' if r.random() < 0.15 else ''
            if k < 0.15:
                globs.append('%s%s;' % (st, self.decl(t, n)))
            elif isinstance(t, Arr) and k < 0.35:
                init = self.init(t, False, targets)
                if init.startswith('"'):
                    d = self.decl(t, n).replace('%s[%d]' % (n, t.n), n + '[]', 1)
                    t = Arr(t.elem, len(init) - 1)
                else:
                    m = r.randint(1, 4)
                    init = '{' + ', '.join(str(self.init(t.elem, False, targets, False)) for _ in range(m)) + '}'
                    d = self.decl(t, n).replace('%s[%d]' % (n, t.n), n + '[]', 1)
                    t = Arr(t.elem, m)
                globs.append('%s%s = %s;' % (st, d, init))
                self.note('arrays sized by their initialiser')
            else:
                globs.append('%s%s = %s;' % (st, self.decl(t, n), self.init(t, False, targets)))
            self.note('globals initialised')
            targets.setdefault(self.key(t), []).append('&' + n)
            main.append('out(sizeof(%s)); %s' % (n, self.show(n, t, 40)))
            main.append(self.showptrs(n, t))
        for f in range(r.randint(1, 3)):
            ls = []
            for i in range(r.randint(1, 5)):
                t = self.rtype(3)
                if self.size(t) > 60:
                    t = r.choice(self.scalars)
                n = self.fresh('l')
                k = r.random()
                if isinstance(t, Arr) and k < 0.2:
                    init = self.init(t, True, targets)
                    if not init.startswith('"'):
                        m = r.randint(1, 4)
                        init = '{' + ', '.join(str(self.init(t.elem, True, targets, False)) for _ in range(m)) + '}'
                    else:
                        m = len(init) - 1
                    d = self.decl(t, n).replace('%s[%d]' % (n, t.n), n + '[]', 1)
                    t = Arr(t.elem, m)
                    self.note('arrays sized by their initialiser')
                    ls.append('%s = %s;' % (d, init))
                elif isinstance(t, Scalar) and r.random() < 0.3:
                    # several declarators
                    x = self.fresh('l')
                    ls.append('%s = %s, *%s = &%s;' % (self.decl(t, n), self.init(t, True, targets), x, n))
                    ls.append('*%s = %s;' % (x, self.value(t)))
                else:
                    ls.append('%s = %s;' % (self.decl(t, n), self.init(t, True, targets)))
                self.note('locals initialised')
                ls.append('out(sizeof(%s)); %s' % (n, self.show(n, t, 30)))
                ls.append(self.showptrs(n, t))
                # nested blocks and loops: initialised again at each entry
                if r.random() < 0.3 and not self.hasptr(t) and not self.hasunion(t):
                    y = self.fresh('l')
                    lv = [x for x in self.leaves(t)]
                    p, lt = r.choice(lv)
                    ls.append('{ int %sk; for (%sk = 0; %sk < 3; %sk += 1) { %s = %s; %s %s%s = %s; %s } }' % (
                        y, y, y, y, self.decl(t, y), self.init(t, True, targets), self.show(y, t, 10), y, p, self.value(lt), self.out(y + p, lt)))
                    self.note('initialised in loops')
                # copies of structures
                if isinstance(t, Rec) and r.random() < 0.5:
                    y = self.fresh('l')
                    ls.append('%s = %s; %s' % (self.decl(t, y), n, self.show(y, t, 10)))
                    self.note('initialised by a structure')
            funs.append('void fun%d() {\n  %s\n}\n' % (f, '\n  '.join(ls)))
            # dirty the stack first
            main.append('dirty(%d); fun%d(); fun%d();' % (r.randint(1, 200), f, f))
        return ''.join(self.text) + '\n'.join(tl) + '\n' + PRE.replace('ix0 = 0', 'ix0') + '\n'.join(globs) + '''
void dirty(int v) { char junk[900]; int i = 0; while (i < 900) { junk[i] = v; i += 1; } }
''' + ''.join(funs) + 'int main() {\n  ' + '\n  '.join(main) + '\n  return 0;\n}\n'

    def showptrs(self, e, t):
        o = []
        for p, lt in list(self.leaves(t))[:60]:
            if isinstance(lt, Ptr):
                x = e + p
                if isinstance(lt.to, Scalar):
                    o.append('if (%s) { %s } else { out(-1); }' % (x, self.out('*' + x, lt.to)))
                else:
                    o.append('out(%s != 0);' % x)
        return ' '.join(o[:10])


class Decls(TypeGen):
    """Programs about declarators: every declared object is used according to its type"""

    def rdecl(self, depth):
        r = self.r
        k = r.random()
        if depth == 0:
            return r.choice(self.scalars[:6] + self.recs)
        if k < 0.45:
            return Ptr(self.rdecl(depth - 1))
        if k < 0.85:
            return Arr(self.rdecl(depth - 1), r.randint(1, 3))
        return Ptr(Fun(r.randint(0, 3)))

    def source(self):
        r = self.r
        for _ in range(r.randint(0, 2)):
            self.record(ptr=False, unions=False)
        self.recs = [t for t in self.recs if self.size(t) < 20]
        top, locs, body = [], [], []
        fnames = ['f%d' % i for i in range(4)]
        fdefs = ['int f0() { return 40; }\n', 'int f1(int a) { return a + 1; }\n', 'int f2(int a, int b) { return a * 10 + b; }\n', 'int f3(int a, int b, int c) { return a * 100 + b * 10 + c; }\n',
                 'int h0() { return 50; }\n', 'int h1(int a) { return a - 1; }\n', 'int h2(int a, int b) { return b * 10 + a; }\n', 'int h3(int a, int b, int c) { return c * 100 + b * 10 + a; }\n']
        for _ in range(r.randint(3, 8)):
            t = self.rdecl(r.randint(1, 5))
            if self.size(t) > 60:
                continue
            n = self.fresh('v')
            k = r.random()
            if k < 0.3:
                td = self.fresh('T')
                top.append('typedef %s;' % self.decl(t, td))
                d = '%s %s' % (td, n)
                self.note('typedefs')
            else:
                d = self.decl(t, n)
            if r.random() < 0.2:
                self.shared(top, locs, body)
            place = r.choice(['g', 'l', 'p'])
            if place == 'p' and isinstance(t, (Ptr, Scalar)):
                # passed as a parameter
                f = self.fresh('par')
                use, setup = self.use(n, t)
                v = self.fresh('v')
                locs.append(self.decl(t, v) + ';')
                b, s = self.build(v, t, locs)
                top.append('int %s(int before, %s, int after) {\n  int r = before * 1000 + after; %s\n  return r;\n}' % (f, d, use))
                body.append(s + ' out(%s(3, %s, 4));' % (f, v))
                self.note('parameters')
            elif place == 'p' and isinstance(t, Arr):
                f = self.fresh('par')
                use, setup = self.use(n, t)
                v = self.fresh('v')
                locs.append(self.decl(t, v) + ';')
                b, s = self.build(v, t, locs)
                if r.random() < 0.5 and not d.startswith('T'):
                    d = d.replace('%s[%d]' % (n, t.n), n + '[]', 1)
                top.append('int %s(%s, int after) {\n  int r = after; %s\n  return r;\n}' % (f, d, use))
                body.append(s + ' out(%s(%s, 4));' % (f, v))
                self.note('array parameters')
            else:
                (top if place == 'g' else locs).append(d + ';')
                b, s = self.build(n, t, locs)
                use, _ = self.use(n, t)
                body.append(s + ' ' + use)
                body.append('out(sizeof(%s));' % n)
                self.note('objects')
            if r.random() < 0.5:
                # abstract declarators
                body.append('out(sizeof(%s));' % self.abstract(t))
                self.note('abstract declarators')
        return ''.join(self.text) + ''.join(fdefs) + PRE + '\n'.join(top) + '\nint main() {\n  int r = 0;\n  ' + '\n  '.join(locs) + '\n  ' + '\n  '.join(body) + '\n  out(r);\n  return 0;\n}\n'

    def shared(self, top, locs, body):
        """A typedef name whose declarations each complete, qualify or extend its type"""
        r = self.r
        t = r.choice(self.scalars[:6])
        td = self.fresh('T')
        k = r.random()
        self.note('typedefs shared by declarations')
        ns = [self.fresh('s') for _ in range(r.randint(2, 4))]
        if k < 0.4:
            # an array of unknown size
            inner = r.choice(['', '', '[2]'])
            top.append('typedef %s %s[]%s;' % (t.name, td, inner))
            for n in ns:
                m = r.randint(1, 6)
                vals = [self.value(t) for _ in range(m * (2 if inner else 1))]
                if inner:
                    vals = ['{%s, %s}' % (vals[2 * i], vals[2 * i + 1]) for i in range(m)]
                if t.name == 'char' and not inner and r.random() < 0.4:
                    vals, init = None, '"%s"' % ''.join(r.choice('abc') for _ in range(m - 1))
                else:
                    init = '{%s}' % ', '.join(vals)
                (top if r.random() < 0.6 else locs).append('%s %s = %s;' % (td, n, init))
                body.append('out(sizeof(%s)); ' % n + self.out('%s[%d]%s' % (n, m - 1, '[1]' if inner else ''), t))
                if r.random() < 0.3:
                    x = self.fresh('f')
                    top.append('int %s(%s p) { return sizeof(p) == sizeof(int*) && p[0]%s == %s[0]%s; }' % (x, td, '[0]' if inner else '', n if n in '\n'.join(top) else 'p', '[0]' if inner else ''))
                    body.append('out(%s(%s));' % (x, n))
        elif k < 0.7:
            # pointers, arrays and plain objects of the same name, in one declaration and in several
            shape = r.choice([t, Ptr(t), Arr(t, 3)])
            top.append('typedef %s;' % self.decl(shape, td))
            for n in ns:
                # qualified names of array types are not supported
                d = r.choice(['%s %s;', '%s %s;' if isinstance(shape, Arr) else 'const %s %s;', '%s *%s;', '%s %s[4];', '%s *%s[2];', '%s (*%s)[2];', 'static %s %s;', '%s **%s;'])
                (top if r.random() < 0.6 or d.startswith('const') else locs).append(d % (td, n))
                body.append('out(sizeof(%s));' % n + (' out(sizeof(*%s));' % n if '*' in d or '[' in d else ''))
            a, b, c = self.fresh('s'), self.fresh('s'), self.fresh('s')
            (top if r.random() < 0.6 else locs).append('%s %s, *%s, %s[3];' % (td, a, b, c))
            body.append('out(sizeof(%s)); out(sizeof(%s)); out(sizeof(*%s)); out(sizeof(%s));' % (a, b, b, c))
        else:
            # names of names
            base = self.rdecl(r.randint(0, 2))
            top.append('typedef %s;' % self.decl(base, td))
            for n in ns:
                d2, q = r.choice([('%s %s', '%s'), ('%s *%s', '*%s'), ('%s %s[3]', '%s[0]')])
                td2 = self.fresh('T')
                top.append('typedef ' + d2 % (td, td2) + ';')
                (top if r.random() < 0.6 else locs).append('%s %s;' % (td2, n))
                body.append('out(sizeof(%s)); out(sizeof(%s)); out(sizeof(%s)); out(sizeof(%s));' % (n, q % n, td, td2))

    def abstract(self, t):
        return self.decl(t, '')

    def build(self, e, t, locs, depth=0):
        """Statements giving a value to the object e of type t"""
        if isinstance(t, Scalar):
            return None, '%s = %s;' % (e, self.value(t))
        if isinstance(t, Rec):
            return None, ' '.join('%s%s = %s;' % (e, p, self.value(lt)) for p, lt in self.leaves(t) if isinstance(lt, Scalar))
        if isinstance(t, Arr):
            return None, ' '.join(self.build('%s[%d]' % (e, i), t.elem, locs, depth + 1)[1] for i in range(t.n))
        if isinstance(t.to, Fun):
            return None, '%s = %s%s%d;' % (e, self.r.choice(['', '&'] if False else ['']), self.r.choice('fh'), t.to.n)
        x = self.fresh('o')
        locs.append(self.decl(t.to, x) + ';')
        b, s = self.build(x, t.to, locs, depth + 1)
        return None, '%s %s = &%s;' % (s, e, x)

    def use(self, e, t):
        """Statements printing what e designates; e is a primary expression"""
        r = self.r
        if isinstance(t, Scalar):
            return self.out(e, t) + (' r += %s & 15;' % e), ''
        if isinstance(t, Rec):
            return self.show(e, t, 6), ''
        if isinstance(t, Arr):
            i = r.randrange(t.n)
            k = r.random()
            if k < 0.6:
                x = '%s[%d]' % (e, i)
            else:
                x = '(*(%s + %d))' % (e, i)
            u = self.use(x, t.elem)[0]
            if t.n > 1 and r.random() < 0.4:
                u += ' ' + self.use('%s[%d]' % (e, t.n - 1), t.elem)[0]
            return u, ''
        if isinstance(t.to, Fun):
            args = ', '.join(str(r.randint(0, 9)) for _ in range(t.to.n))
            self.note('calls through pointers')
            return 'out(%s(%s)); r += %s(%s);' % (e if r.random() < 0.6 else '(*%s)' % e, args, '(*%s)' % e if r.random() < 0.4 else e, args), ''
        x = r.choice(['(*%s)' % e, '%s[0]' % e])
        if isinstance(t.to, Rec):
            ls = [p for p in self.leaves(t.to) if p[0].startswith('.') and isinstance(p[1], Scalar)]
            if ls:
                p, lt = r.choice(ls)
                return self.out('%s->%s' % (e, p[1:]), lt), ''
        return self.use(x, t.to)[0], ''
