"""Random whole programs: statements, functions, loops, switches, arrays, pointers,
structures, strings, allocation and recursion.

The generator tracks an interval for every int expression and every variable, and
the effects of expressions, so that the programs have no undefined or unspecified
behaviour; the reference execution certifies it again.  Each program prints a trace
of the values it computes.

Dialects: 'sh' (the subset of C of the shell backend), 'native' (both native backends).
"""
from . import cexpr as X
from .cexpr import lit, pr, INT

BIG = (1 << 31) - 1
NAMES = ['x', 'y', 'z', 'n', 'k', 'v', 'w', 'val', 'tmp', 'acc', 'sum', 'idx', 'cnt', 'size', 'left', 'right', 'p1', 'q1', 'aa', 'bb',
         'total', 'foo', 'bar', 'baz', 'A', 'B', 'N1', 'camelCase', 'snake_case', 'i2', 'x_', 'len', 'res', 'cur', 'old', 'state']
# C identifiers that are keywords, commands or runtime functions of the shells.  Names of
# special parameters of some shell (PPID, status, ...) are a known finding, see DESIGN.md.
HOSTILE = ['test', 'echo', 'set', 'unset', 'shift', 'local', 'readonly', 'export', 'eval', 'exec', 'trap', 'cd', 'then', 'fi', 'done', 'esac',
           'elif', 'until', 'function', 'time', 'let', 'endlet', 'print', 'true', 'false', 'in', 'defarr', 'defstr', 'unpack',
           'argv0', 'nargs', 'typeset', 'declare', 'alias', 'wait', 'jobs', 'kill', 'type', 'ulimit', 'umask', 'getopts', 'hash', 'command', 'times',
           'bg', 'fg', 'fc', 'e', 'l', 'O', 'source', 'dot', 'expr', 'sed', 'awk', 'cat', 'dd', 'pwd', 'fd', 'buf', 'str', 'ptr', 'addr', 'end',
           'start', 'count', 'code', 'byte', 'file', 'name', 'mode', 'flags', 'line', 'arg', 'args', 'result', 'alloc', 'obj', 'save', 'width', 'i', 'j', 'c', 's', 'p']


class Var:
    def __init__(self, name, lo, hi, kind='int', glob=False):
        self.name, self.lo, self.hi, self.kind, self.glob = name, lo, hi, kind, glob
        self.cur = None       # known interval in straight-line code
        self.ro = False       # loop counters are not assigned by generated statements

    def iv(self):
        return self.cur or (self.lo, self.hi)


class Arr:
    def __init__(self, name, n, lo, hi, res=None, local=False, ro=False, ptr=False):
        self.name, self.n, self.lo, self.hi, self.res = name, n, lo, hi, res or name
        self.local, self.ro, self.ptr = local, ro, ptr


class Struct:
    def __init__(self, tag, fields):
        self.tag, self.fields = tag, fields   # fields: {name: (lo, hi)}


class Sptr:
    """A pointer to a structure (or a structure variable when dot)"""

    def __init__(self, name, st, res, dot=False):
        self.name, self.st, self.res, self.dot = name, st, res, dot


class Fn:
    def __init__(self, name, params, lo, hi, cost, reads, writes, void=False):
        self.name, self.params, self.lo, self.hi, self.cost = name, params, lo, hi, cost
        self.reads, self.writes, self.void = reads, writes, void
        self.recursive = False


class Prog:
    def __init__(self, rng, dialect, names=None, budget=2500, nfuns=6, fmts=None, features=()):
        self.r = rng
        self.sh = dialect == 'sh'
        self.dialect = dialect
        self.budget = budget
        self.names = [n for n in names or NAMES if not (self.sh and (n[0] == '_' or n[-1] == '_'))]
        self.features = set(features)
        self.fmts = fmts or ('ddddx' if self.sh else 'dddxo')
        self.used = set()
        self.globals, self.garrs, self.fns, self.structs, self.gsptrs = [], [], [], [], []
        self.lines = []
        self.stats = {}
        self.nfuns = nfuns
        self.uid = 0
        self.noneg0 = False   # no product or negation that may give -0 (known finding about ksh)
        self.trace_id = 0

    # -- names ---------------------------------------------------------------
    def fresh(self, prefix=None, scope=None):
        r = self.r
        if prefix is None:
            for _ in range(20):
                n = r.choice(self.names)
                if n not in self.used and (scope is None or n not in scope.names):
                    if scope is None:
                        self.used.add(n)
                    else:
                        scope.names.add(n)
                    return n
            prefix = r.choice(self.names)
        self.uid += 1
        n = '%s%d' % (prefix, self.uid)
        while n in self.used or scope is not None and n in scope.names:
            self.uid += 1
            n = '%s%d' % (prefix, self.uid)
        (self.used if scope is None else scope.names).add(n)
        return n

    def note(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    # -- expressions -----------------------------------------------------------
    def literal(self, lo=None, hi=None):
        r = self.r
        if lo is not None:
            v = r.randint(lo, hi)
        else:
            v = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 10, 15, 16, 31, 64, 99, 100, 127, 255, 256, 1000, 1024, -1, -2, -7])
        if 32 <= v < 127 and r.random() < 0.25:
            c = chr(v)
            return ('n', "'%s'" % ('\\' + c if c in "'\\" else c), v, INT), v, v
        f = r.choice(self.fmts) if v >= 0 else 'd'
        t = lit(v, INT, f)
        return t, v, v

    def fits(self, lo, hi):
        return -BIG <= lo and hi <= BIG

    def expr(self, sc, depth, calls=True, test=False):
        """Returns (tree, lo, hi)"""
        for _ in range(8):
            try:
                t, lo, hi = self.expr0(sc, depth, calls, test)
                if not self.fits(lo, hi):
                    continue
                X.effects(t, self.funs)
                return t, lo, hi
            except X.UB:
                continue
        return self.leaf(sc)

    def leaf(self, sc):
        r = self.r
        vs = sc.vars + self.globals
        if vs and r.random() < 0.7:
            v = r.choice(vs)
            lo, hi = v.iv()
            return ('v', v.name), lo, hi
        return self.literal()

    def access(self, sc, write=False, depth=1):
        """An element of an array, structure or pointer: (tree, lo, hi) or None"""
        r = self.r
        opts = [a for a in sc.arrs + self.garrs if not (write and a.ro)]
        sopts = sc.sptrs + self.gsptrs
        if sopts and (not opts or r.random() < 0.4):
            s = r.choice(sopts)
            f = r.choice(sorted(s.st.fields))
            lo, hi = s.st.fields[f]
            op = '.' if s.dot else '->'
            form = r.random()
            txt = '%s%s%s' % (s.name, op, f)
            if form < 0.15 and not s.dot and not self.sh:
                txt = '(*%s).%s' % (s.name, f)
            self.note('member')
            return ('raw', txt, 15, {s.res} | ({s.name} if not s.dot else set()), set(), s.res), lo, hi
        if not opts:
            return None
        a = r.choice(opts)
        idx, il, ih = self.index(sc, a.n, depth, write)
        self.note('element')
        R, W = X.effects(idx, self.funs)
        form = r.random()
        if form < 0.25 and not (self.sh and write and X.prec(idx) < 12):
            # *(a + i)
            self.note('deref')
            if il == ih == 0:
                txt = '*' + a.name
            else:
                txt = '*(%s + %s)' % (a.name, pr(idx, 13))
            return ('raw', txt, 14, R | {a.res, a.name}, W, a.res), a.lo, a.hi
        return ('raw', '%s[%s]' % (a.name, pr(idx, 0)), 15, R | {a.res, a.name}, W, a.res), a.lo, a.hi

    def index(self, sc, n, depth, write=False):
        r = self.r
        x = r.random()
        if x < 0.35 or depth <= 0:
            return self.literal(0, n - 1)
        cands = [v for v in sc.vars + self.globals if v.iv()[0] >= 0 and v.iv()[1] < n]
        if cands and x < 0.75:
            v = r.choice(cands)
            return ('v', v.name), v.iv()[0], v.iv()[1]
        t, lo, hi = self.expr(sc, depth - 1, calls=False)
        if X.effects(t, self.funs)[1]:
            return self.literal(0, n - 1)
        if lo >= 0 and hi < n:
            if self.sh and write and X.prec(t) < 12:
                return self.literal(0, n - 1)
            return t, lo, hi
        if lo >= 0:
            return ('b', '%', t, lit(n)), 0, n - 1
        if (n & (n - 1)) == 0 and not (self.sh and write):
            return ('b', '&', t, lit(n - 1)), 0, n - 1
        return ('b', '%', ('()', ('b', '+', ('b', '%', t, lit(n)), lit(n))), lit(n)), 0, n - 1

    def expr0(self, sc, depth, calls, test):
        r = self.r
        if depth <= 0:
            return self.leaf(sc)
        x = r.random()
        d = depth - 1
        if x < 0.30:
            op = r.choice('+-+-*')
            a, al, ah = self.expr(sc, d, calls)
            b, bl, bh = self.expr(sc, d - (r.random() < 0.4), calls)
            if op == '+':
                lo, hi = al + bl, ah + bh
            elif op == '-':
                lo, hi = al - bh, ah - bl
            else:
                c = [al * bl, al * bh, ah * bl, ah * bh]
                lo, hi = min(c), max(c)
                if self.noneg0 and lo <= 0 <= hi and (al < 0 or bl < 0):
                    raise X.UB('-0')
            if not self.fits(lo, hi):
                raise X.UB('range')
            return ('b', op, a, b), lo, hi
        if x < 0.40:
            op = r.choice('/%')
            a, al, ah = self.expr(sc, d, calls)
            b, bl, bh = self.expr(sc, d - 1, calls)
            if bl <= 0 <= bh:
                if r.random() < 0.5:
                    b, bl, bh = ('()', ('b', '|', b, lit(1))), bl, bh
                else:
                    v = r.choice([2, 3, 5, 7, 10, 16, -3])
                    b, bl, bh = lit(v), v, v
            m = max(abs(al), abs(ah))
            if op == '/':
                return ('b', op, a, b), (-m if al < 0 or bl < 0 else 0), m
            mb = max(abs(bl), abs(bh)) - 1
            mb = min(mb, m) if mb >= 0 else 0
            return ('b', op, a, b), (-mb if al < 0 else 0), (mb if ah > 0 else 0)
        if x < 0.50:
            op = r.choice('&|^')
            a, al, ah = self.expr(sc, d, calls)
            b, bl, bh = self.expr(sc, d - (r.random() < 0.4), calls)
            k = max(al if al >= 0 else ~al, ah if ah >= 0 else ~ah, bl if bl >= 0 else ~bl, bh if bh >= 0 else ~bh).bit_length()
            if al >= 0 and bl >= 0:
                lo, hi = 0, (1 << k) - 1
                if op == '&':
                    hi = min(ah, bh)
            elif op == '&' and (al >= 0 or bl >= 0):
                lo, hi = 0, (ah if al >= 0 else bh)
            else:
                lo, hi = -(1 << k), (1 << k) - 1
            return ('b', op, a, b), lo, hi
        if x < 0.56:
            op = r.choice(['<<', '>>'])
            a, al, ah = self.expr(sc, d, calls)
            n = r.randrange(0, 7)
            b, bl, bh = lit(n), n, n
            if r.random() < 0.3:
                e, _, _ = self.expr(sc, d - 1, calls=False)
                b, bl, bh = ('()', ('b', '&', e, lit(7))), 0, 7
            if op == '<<':
                if al < 0:
                    raise X.UB('shift')
                return ('b', op, a, b), al << bl, ah << bh
            return ('b', op, a, b), min(al >> bl, al >> bh), max(ah >> bl, ah >> bh)
        if x < 0.68:
            op = r.choice(['<', '<=', '>', '>=', '==', '!='])
            a, _, _ = self.expr(sc, d, calls)
            b, _, _ = self.expr(sc, d - (r.random() < 0.5), calls)
            return ('b', op, a, b), 0, 1
        if x < 0.76:
            op = r.choice(['&&', '||'])
            sub = calls and (test or not self.sh)
            a, _, _ = self.expr(sc, d, sub, test)
            b, _, _ = self.expr(sc, d, sub, test)
            e = ('b', op, a, b)
            if self.sh and not self.raw_ok(e, test):
                raise X.UB('sh')
            return e, 0, 1
        if x < 0.82:
            op = r.choice('-~!!')
            a, al, ah = self.expr(sc, d, calls, False)
            if self.noneg0 and op == '-' and al <= 0 <= ah:
                op = '~'
            return ('u', op, a), *((-ah, -al) if op == '-' else (~ah, ~al) if op == '~' else (0, 1))
        if x < 0.87:
            sub = calls and not self.sh
            c, _, _ = self.expr(sc, d - 1, sub)
            a, al, ah = self.expr(sc, d, sub)
            b, bl, bh = self.expr(sc, d, sub)
            e = ('t', c, a, b)
            if self.sh and not self.raw_ok(e, False):
                raise X.UB('sh')
            return e, min(al, bl), max(ah, bh)
        if x < 0.93:
            a = self.access(sc, False, d)
            return a if a else self.leaf(sc)
        if x < 0.97 and calls:
            c = self.call(sc, d)
            if c:
                return c
        if x < 0.985:
            vs = [v for v in sc.vars if not v.ro and v.kind == 'int']
            if vs:
                v = r.choice(vs)
                a, al, ah = self.expr(sc, d, calls=False)
                if al >= v.lo and ah <= v.hi:
                    self.note('assignment in expression')
                    return ('()', ('=', '', ('v', v.name), a)), al, ah
        vs = [v for v in sc.vars if v.kind == 'counter']
        if vs:
            v = r.choice(vs)
            op = r.choice(['++', '--', 'p++', 'p--'])
            self.note('increment in expression')
            sc.cost += 1
            return (op, ('v', v.name)), v.lo, v.hi
        return self.leaf(sc)

    def raw_ok(self, e, test):
        """Addresses in conditional operands (see cexpr.sh_ok): raw nodes have the effects of their address"""
        if test:
            return True
        def addr(t):
            return [y for y in X.walk(t) if y[0] in ('raw', 'i')]
        for x in X.walk(e):
            if x[0] == 'b' and x[1] in ('&&', '||'):
                ops, left = [x[3]], X.effects(x[2], self.funs)
            elif x[0] == 't':
                ops, left = [x[2], x[3]], X.effects(x[1], self.funs)
            else:
                continue
            for o in ops:
                for y in addr(o):
                    R, W = X.effects(y, self.funs)
                    if W or R & left[1]:
                        return False
            if X.has_call(x):
                return False
        return True

    def call(self, sc, depth):
        r = self.r
        fs = [f for f in self.fns if not f.void and sc.cost + f.cost * sc.mult <= self.budget]
        if not fs:
            return None
        f = r.choice(fs)
        args = self.args(sc, f, depth)
        if args is None:
            return None
        sc.cost += f.cost * sc.mult
        self.note('call')
        sc.wr(f)
        return ('call', f.name, args), f.lo, f.hi

    def args(self, sc, f, depth):
        r = self.r
        args = []
        for p in f.params:
            if isinstance(p, Var):
                for _ in range(4):
                    a, al, ah = self.expr(sc, depth, calls=depth > 0)
                    if al >= p.lo and ah <= p.hi:
                        break
                else:
                    a, al, ah = self.literal(max(p.lo, -9), min(p.hi, 20))
                args.append(a)
            elif isinstance(p, Arr):
                c = [a for a in sc.arrs + self.garrs if a.n >= p.n and (a.lo, a.hi) == (p.lo, p.hi) and (not a.ro or p.ro)]
                if not c:
                    return None
                a = r.choice(c)
                off = r.randrange(0, a.n - p.n + 1)
                # the callee accesses the array: reads and writes of '#mem'
                t = a.name if off == 0 else ('&%s[%d]' % (a.name, off) if r.random() < 0.5 else '%s + %d' % (a.name, off))
                args.append(('raw', t, 12 if '+' in t else 14, {a.name}, set(), None))
            else:
                c = [s for s in sc.sptrs + self.gsptrs if s.st is p.st]
                if not c:
                    return None
                s = r.choice(c)
                args.append(('raw', ('&' if s.dot else '') + s.name, 14, {s.name}, set(), None))
        return args

    # -- statements --------------------------------------------------------------
    def block(self, sc, n, depth, ind):
        out = []
        for _ in range(n):
            if sc.cost > self.budget * 0.8:
                break
            out += self.stmt(sc, depth, ind)
        if not out:
            out = [ind + self.trace(sc)]
        return out

    def trace(self, sc):
        r = self.r
        t, lo, hi = self.expr(sc, 1, calls=False)
        sc.io = True
        sc.cost += 3 * sc.mult
        self.note('trace')
        return 'out(%s);' % pr(t, 2)

    def clear(self, sc):
        for v in sc.vars + self.globals:
            v.cur = None

    def assign_cur(self, sc, v, lo, hi):
        v.cur = (lo, hi)

    def effects_done(self, sc, tree):
        """After an expression statement: forget the intervals of the variables it wrote"""
        R, W = X.effects(tree, self.funs)
        for v in sc.vars + self.globals:
            if v.name in W:
                v.cur = None

    def cond(self, sc, depth):
        t, _, _ = self.expr(sc, depth, test=True)
        return t

    def stmt(self, sc, depth, ind):
        r = self.r
        sc.cost += sc.mult
        x = r.random()
        if depth <= 0:
            x = x * 0.52
        if x < 0.16:
            return [ind + self.assign(sc)]
        if x < 0.24:
            return [ind + self.opassign(sc)]
        if x < 0.30:
            return [ind + self.incdec(sc)]
        if x < 0.38:
            a = self.access(sc, True)
            if a:
                t, lo, hi = a
                for _ in range(5):
                    e, el, eh = self.expr(sc, 2)
                    try:
                        tree = ('=', '', t, e)
                        X.effects(tree, self.funs)
                    except X.UB:
                        continue
                    if el >= lo and eh <= hi:
                        self.effects_done(sc, tree)
                        return [ind + pr(tree) + ';']
            return [ind + self.assign(sc)]
        if x < 0.46:
            return [ind + self.trace(sc)]
        if x < 0.52:
            c = self.callstmt(sc)
            return [ind + (c or self.trace(sc))]
        if x < 0.64:
            return self.ifstmt(sc, depth, ind)
        if x < 0.78:
            return self.loop(sc, depth, ind)
        if x < 0.86:
            return self.switch(sc, depth, ind)
        if x < 0.90 and sc.loops and not sc.noexit:
            kw = r.choice(['break', 'continue'])
            if sc.inswitch and (kw == 'break'):
                kw = 'continue'
            if kw == 'continue' and sc.loops[-1] == 'nocont':
                kw = 'break'
                if sc.inswitch:
                    return [ind + self.trace(sc)]
            self.note(kw)
            c = self.cond(sc, 1)
            self.effects_done(sc, c)
            return [ind + 'if (%s) %s;' % (pr(c), kw)]
        if x < 0.93 and not sc.noexit and not (self.sh and sc.inswitch):
            c = self.cond(sc, 1)
            self.effects_done(sc, c)
            self.note('return')
            return [ind + 'if (%s) { %s }' % (pr(c), self.ret(sc))]
        if x < 0.97 and not self.sh:
            return self.native_stmt(sc, depth, ind)
        return self.scope_block(sc, depth, ind)

    def ret(self, sc):
        if sc.fn_void:
            return 'return;'
        for _ in range(4):
            t, lo, hi = self.expr(sc, 2)
            if lo >= sc.ret[0] and hi <= sc.ret[1]:
                return 'return %s;' % pr(t)
        return 'return %d;' % self.r.randint(max(sc.ret[0], 0), min(sc.ret[1], 9))

    def assign(self, sc):
        r = self.r
        vs = [v for v in sc.vars + self.globals if not v.ro]
        v = r.choice(vs)
        for _ in range(4):
            t, lo, hi = self.expr(sc, r.choice([1, 2, 2, 3]))
            tree = ('=', '', ('v', v.name), t)
            try:
                X.effects(tree, self.funs)
            except X.UB:
                continue
            vlo, vhi = (v.lo, v.hi) if v.kind == 'int' else (-1000, 1000)
            if lo >= vlo and hi <= vhi:
                self.effects_done(sc, tree)
                if v.kind == 'int' and not sc.loopdepth_volatile:
                    self.assign_cur(sc, v, lo, hi)
                return pr(tree) + ';'
        m = min(v.hi, 999 if v.kind == 'counter' else v.hi)
        t, lo, hi = self.expr(sc, 1, calls=False)
        tree = ('=', '', ('v', v.name), ('b', '%', t, lit(max(m, 1)))) if v.lo < 0 and lo >= 0 or v.lo <= -m else None
        if tree is None:
            return '%s = %d;' % (v.name, max(v.lo, 0) if v.kind == 'int' else 0)
        try:
            X.effects(tree, self.funs)
        except X.UB:
            return '%s = 0;' % v.name
        self.effects_done(sc, tree)
        return pr(tree) + ';'

    def opassign(self, sc):
        r = self.r
        vs = [v for v in sc.vars + self.globals if not v.ro and v.kind == 'int']
        if not vs:
            return self.trace(sc)
        v = r.choice(vs)
        lo, hi = v.iv()
        for _ in range(4):
            op = r.choice(['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>'])
            t, tl, th = self.expr(sc, 1)
            if op in '/%' and tl <= 0 <= th:
                t, tl, th = self.literal(1, 9)
            if op in ('<<', '>>'):
                t, tl, th = self.literal(0, 5)
            tree = ('=', op, ('v', v.name), t)
            try:
                X.effects(tree, self.funs)
            except X.UB:
                continue
            if op == '+':
                a, b = lo + tl, hi + th
            elif op == '-':
                a, b = lo - th, hi - tl
            elif op == '*':
                c = [lo * tl, lo * th, hi * tl, hi * th]
                a, b = min(c), max(c)
                if self.noneg0 and a <= 0 <= b and (lo < 0 or tl < 0):
                    continue
            elif op == '<<':
                if lo < 0:
                    continue
                a, b = lo << tl, hi << th
            elif op == '>>':
                a, b = lo >> tl, hi >> tl
                if lo < 0:
                    a = lo
            elif op == '&' and lo >= 0:
                a, b = 0, hi
            elif op in '|^&':
                k = max(abs(lo), abs(hi), abs(tl), abs(th)).bit_length()
                a, b = (-(1 << k) if lo < 0 or tl < 0 else 0), (1 << k) - 1
            else:
                m = max(abs(lo), abs(hi))
                a, b = -m, m
                if lo >= 0 and tl > 0:
                    a = 0
            if a >= v.lo and b <= v.hi:
                self.effects_done(sc, tree)
                v.cur = (a, b) if not sc.loopdepth_volatile else None
                return pr(tree) + ';'
        return self.incdec(sc)

    def incdec(self, sc):
        r = self.r
        vs = [v for v in sc.vars + self.globals if v.kind == 'counter']
        if not vs:
            return self.trace(sc)
        v = r.choice(vs)
        if r.random() < 0.3:
            return '%s %s= %d;' % (v.name, r.choice('+-'), r.randint(1, 3))
        return r.choice(['%s++;', '%s--;', '++%s;', '--%s;']) % v.name

    def callstmt(self, sc):
        r = self.r
        fs = [f for f in self.fns if sc.cost + f.cost * sc.mult <= self.budget]
        if not fs:
            return None
        f = r.choice(fs)
        a = self.args(sc, f, 2)
        if a is None:
            return None
        tree = ('call', f.name, a)
        try:
            X.effects(tree, self.funs)
        except X.UB:
            return None
        sc.cost += f.cost * sc.mult
        sc.wr(f)
        self.effects_done(sc, tree)
        self.note('call statement')
        return pr(tree) + ';'

    def ifstmt(self, sc, depth, ind):
        r = self.r
        c = self.cond(sc, 3)
        self.effects_done(sc, c)
        self.note('if')
        self.clear(sc)
        form = r.random()
        if form < 0.2:
            s = self.stmt(sc, 0, '')
            self.clear(sc)
            out = [ind + 'if (%s) %s' % (pr(c), s[0])]
            if len(s) > 1:
                out = [ind + 'if (%s) {' % pr(c)] + s + [ind + '}']
            if r.random() < 0.5:
                out += [ind + 'else ' + self.stmt(sc, 0, '')[0]]
                self.clear(sc)
            return out
        out = [ind + 'if (%s) {' % pr(c)] + self.block(sc, r.randint(1, 3), depth - 1, ind + '  ')
        self.clear(sc)
        while r.random() < 0.3:
            c = self.cond(sc, 2)
            self.effects_done(sc, c)
            out += [ind + '} else if (%s) {' % pr(c)] + self.block(sc, r.randint(1, 2), depth - 1, ind + '  ')
            self.clear(sc)
            self.note('else if')
        if r.random() < 0.5:
            out += [ind + '} else {'] + self.block(sc, r.randint(1, 2), depth - 1, ind + '  ')
            self.clear(sc)
        return out + [ind + '}']

    def loop(self, sc, depth, ind):
        r = self.r
        n = r.randint(1, 5)
        if sc.cost + sc.mult * n * 12 > self.budget or not sc.free_counters:
            return self.ifstmt(sc, depth, ind)
        self.clear(sc)
        v = sc.free_counters.pop()
        v.ro = True
        old = v.lo, v.hi, v.kind
        v.kind = 'loop'
        kind = r.choice(['for', 'for', 'while', 'do', 'forcond', 'fordown', 'forever', 'forcomma'])
        m = sc.mult
        sc.mult *= n
        step = r.choice([1, 1, 1, 2, 3])
        start = r.randint(-2, 3)
        end = start + n * step
        v.lo, v.hi = min(start, 0), end
        extra = ''
        if r.random() < 0.4:
            # an extra condition, which may end the loop early
            c, _, _ = self.expr(sc, 1, test=True)
            if v.name not in X.effects(c, self.funs)[1]:
                extra = ' && ' + pr(c, 6)
                self.clear(sc)
        inc = r.choice(['%s++', '++%s', '%s += 1', '%s = %s + 1']).replace('%s', v.name) if step == 1 else '%s += %d' % (v.name, step)
        sc.loops.append('cont' if kind in ('for', 'forcond', 'fordown', 'forcomma') else 'nocont')
        inswitch, sc.inswitch = sc.inswitch, False
        vol, sc.loopdepth_volatile = sc.loopdepth_volatile, False
        self.note('loop ' + kind)
        body = lambda: self.block(sc, r.randint(1, 3), depth - 1, ind + '  ')
        if kind in ('for', 'forcond'):
            op, e = r.choice([('<', end), ('<=', end - 1)])
            if step == 1 and r.random() < 0.2:
                op = '!='
                e = end
            out = [ind + 'for (%s = %d; %s %s %d%s; %s) {' % (v.name, start, v.name, op, e, extra, inc)] + body() + [ind + '}']
        elif kind == 'fordown':
            v.lo, v.hi = min(0, start), end
            out = [ind + 'for (%s = %d; %s > %d%s; %s) {' % (v.name, end, v.name, start, extra, r.choice(['%s--', '--%s', '%s -= 1']) .replace('%s', v.name) if step == 1 else '%s -= %d' % (v.name, step))]
            v.lo = min(0, start - step)
            out += body() + [ind + '}']
        elif kind == 'forcomma':
            w = [u for u in sc.vars if u.kind == 'counter' and u is not v]
            if w:
                u = r.choice(w)
                out = [ind + 'for (%s = %d, %s = %d; %s < %d%s; %s, %s) {' % (v.name, start, u.name, r.randint(0, 9), v.name, end, extra, inc, r.choice(['%s++', '%s--']) % u.name)]
            else:
                out = [ind + 'for (%s = %d; %s < %d%s; %s) {' % (v.name, start, v.name, end, extra, inc)]
            out += body() + [ind + '}']
        elif kind == 'while':
            out = [ind + '%s = %d;' % (v.name, start), ind + 'while (%s < %d%s) {' % (v.name, end, extra)] + body() + [ind + '  %s;' % inc, ind + '}']
        elif kind == 'do':
            sc.loops[-1] = 'cont'
            # the counter is incremented first, so that continue evaluates the condition
            out = [ind + '%s = %d;' % (v.name, start), ind + 'do {', ind + '  %s;' % inc] + body() + [ind + '} while (%s < %d%s);' % (v.name, end, extra)]
        else:
            sc.loops[-1] = 'cont'
            out = [ind + '%s = %d;' % (v.name, start), ind + r.choice(['for (;;) {', 'while (1) {']), ind + '  %s;' % inc,
                   ind + '  if (%s >= %d) { break; }' % (v.name, end)] + body() + [ind + '}']
        sc.loops.pop()
        sc.inswitch = inswitch
        sc.loopdepth_volatile = vol
        sc.mult = m
        self.clear(sc)
        v.lo, v.hi, v.kind = old
        v.ro = True
        sc.free_counters.append(v)
        # after the loop the counter may be read as a constant-free variable: it stays read-only
        return out

    def switch(self, sc, depth, ind):
        r = self.r
        t, lo, hi = self.expr(sc, 2)
        if hi - lo > 40:
            t, lo, hi = ('b', '%', t, lit(r.choice([3, 4, 5]))), -4, 4
        self.effects_done(sc, t)
        self.clear(sc)
        self.note('switch')
        vals = list(range(max(lo, -5), min(hi, 12) + 1))
        r.shuffle(vals)
        out = [ind + 'switch (%s) {' % pr(t)]
        nc = r.randint(1, 4)
        groups = []
        for _ in range(nc):
            k = min(len(vals), r.choice([1, 1, 1, 2, 3]))
            if k:
                groups.append([vals.pop() for _ in range(k)])
        default = not groups or r.random() < 0.7
        if default:
            pos = len(groups) if self.sh else r.randrange(len(groups) + 1)
            groups.insert(pos, None)
        inswitch, sc.inswitch = sc.inswitch, True
        loops = list(sc.loops)
        for gi, g in enumerate(groups):
            if g is None:
                out.append(ind + '  default:')
            else:
                for v in g:
                    s = '%d' % v
                    if 32 <= v < 127 and r.random() < 0.3:
                        s = "'%s'" % chr(v)
                    out.append(ind + '  case %s:' % s)
            body = self.block(sc, r.randint(1, 2), depth - 1, ind + '    ')
            self.clear(sc)
            out += body
            last = gi == len(groups) - 1
            if not self.sh and r.random() < 0.3:
                self.note('fallthrough')
            elif last and r.random() < 0.3:
                pass
            elif not self.sh and loops and loops[-1] == 'cont' and not inswitch and r.random() < 0.1:
                out.append(ind + '    continue;')
            else:
                out.append(ind + '    break;')
        sc.inswitch = inswitch
        return out + [ind + '}']

    def scope_block(self, sc, depth, ind):
        """A block declaring a variable"""
        r = self.r
        n = self.fresh('b', sc)
        self.note('block')
        t, lo, hi = self.expr(sc, 1, calls=not self.sh)
        self.effects_done(sc, t)
        v = Var(n, *wide(lo, hi))
        out = [ind + '{', ind + '  int %s = %s;' % (n, pr(t, 2))]
        sc.vars.append(v)
        out += self.block(sc, r.randint(1, 3), depth - 1, ind + '  ')
        sc.vars.remove(v)
        self.clear(sc)
        return out + [ind + '}']

    def native_stmt(self, sc, depth, ind):
        r = self.r
        k = r.choice(['goto', 'comma', 'condexpr', 'shadow'])
        if k == 'goto' and not sc.inswitch:
            self.uid += 1
            l = 'L%d' % self.uid
            c = self.cond(sc, 1)
            self.effects_done(sc, c)
            self.clear(sc)
            self.note('goto')
            noexit, sc.noexit = sc.noexit, sc.noexit
            out = [ind + 'if (%s) goto %s;' % (pr(c), l)] + self.block(sc, r.randint(1, 2), depth - 1, ind) + [ind + l + ': ;']
            self.clear(sc)
            return out
        if k == 'comma':
            a, _, _ = self.expr(sc, 2)
            v = [v for v in sc.vars if v.kind == 'counter']
            if v:
                w = r.choice(v)
                self.clear(sc)
                self.note('comma')
                return [ind + '%s = 3, %s++, out(%s);' % (w.name, w.name, w.name)]
        if k == 'condexpr':
            c = self.cond(sc, 2)
            self.effects_done(sc, c)
            f = [f for f in self.fns if f.cost * sc.mult + sc.cost < self.budget]
            if f:
                f = r.choice(f)
                a = self.args(sc, f, 1)
                if a is not None and not f.void:
                    sc.cost += f.cost * sc.mult
                    sc.wr(f)
                    self.clear(sc)
                    self.note('conditional call')
                    return [ind + '%s %s %s;' % (pr(c, 6), r.choice(['&&', '||']), pr(('call', f.name, a), 6))]
        if k == 'shadow':
            v = r.choice(sc.vars)
            if v.kind == 'int' and not v.ro:
                self.note('shadow')
                w = Var(v.name, -100, 100)
                i = sc.vars.index(v)
                sc.vars[i] = w
                out = [ind + '{', ind + '  int %s = %d;' % (v.name, r.randint(-50, 50))] + self.block(sc, r.randint(1, 2), depth - 1, ind + '  ') + [ind + '  out(%s);' % v.name, ind + '}']
                sc.vars[i] = v
                self.clear(sc)
                return out
        return [ind + self.trace(sc)]

    # -- functions -------------------------------------------------------------
    def function(self, i):
        r = self.r
        sc = Scope(self)
        name = self.fresh('f')
        void = r.random() < 0.3
        params = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
            x = r.random()
            if x < 0.2 and self.garrs:
                a = r.choice(self.garrs)
                k = r.randint(1, a.n)
                n = self.fresh(None, sc)
                params.append(Arr(n, k, a.lo, a.hi, res='#mem', ro=a.ro, ptr=True))
            elif x < 0.35 and self.gsptrs:
                st = r.choice(self.gsptrs).st
                n = self.fresh(None, sc)
                params.append(Sptr(n, st, '#mem'))
            else:
                params.append(Var(self.fresh(None, sc), *r.choice([(-10, 10), (0, 9), (-1000, 1000), (0, 255), (-100000, 100000)])))
        sc.vars = [p for p in params if isinstance(p, Var)]
        sc.arrs = [p for p in params if isinstance(p, Arr)]
        sc.sptrs = [p for p in params if isinstance(p, Sptr)]
        decls = self.locals(sc)
        sc.ret = r.choice([(-100, 100), (0, 1), (-10000, 10000), (0, 255)])
        sc.fn_void = void
        body = self.block(sc, r.randint(2, 6), 2, '  ')
        if not void:
            body.append('  ' + self.ret(sc))
        ps = ', '.join(param(p) for p in params)
        f = Fn(name, params, sc.ret[0], sc.ret[1], sc.cost + 5, {'#mem', '#io'} | {v.name for v in self.globals} | {a.name for a in self.garrs}, None, void)
        f.writes = {'#io', '#mem'} | {v.name for v in self.globals} | {a.res for a in self.garrs} | {s.res for s in self.gsptrs}
        f.reads |= {a.res for a in self.garrs} | {s.res for s in self.gsptrs}
        self.lines.append('%s %s(%s) {' % ('void' if void else 'int', name, ps if ps or not self.sh else ''))
        self.lines += decls + body + ['}', '']
        self.fns.append(f)
        self.funs[name] = f

    def locals(self, sc):
        r = self.r
        decls = []
        self.clear(sc)
        for k in range(r.randint(2, 4)):
            lo, hi = r.choice([(-1000, 1000), (0, 100), (-100000, 100000), (-10, 10)])
            v = Var(self.fresh(None, sc), lo, hi)
            if r.random() < 0.7:
                t, tl, th = self.expr(sc, 1, calls=False)
                init = pr(t, 2) if tl >= lo and th <= hi else str(r.randint(max(lo, -9), min(hi, 9)))
                decls.append('  int %s = %s;' % (v.name, init))
            else:
                decls.append('  int %s;' % v.name)
                decls.append(None)
                sc.inits.append('  %s = %d;' % (v.name, r.randint(max(lo, -9), min(hi, 9))))
            sc.pending.append(v)
        for k in range(2):
            v = Var(self.fresh(None, sc), -40000, 40000, 'counter')
            decls.append('  int %s = %d;' % (v.name, r.randint(-5, 5)))
            sc.pending.append(v)
        loopvars = []
        names = [self.fresh(r.choice(['i', 'j', 'k']), sc) for _ in range(3)]
        decls.append('  int %s;' % ', '.join(names) if r.random() < 0.5 else '\n'.join('  int %s;' % n for n in names))
        for n in names:
            v = Var(n, -10, 40, 'loop')
            v.ro = True
            loopvars.append(v)
            sc.inits.append('  %s = 0;' % n)
        if not self.sh:
            for k in range(r.randint(0, 2)):
                n = self.fresh(None, sc)
                m = r.choice([2, 3, 4, 8])
                vals = [r.randint(-50, 50) for _ in range(r.randint(0, m))]
                a = Arr(n, m, -1000, 1000, local=True)
                if vals:
                    decls.append('  int %s[%d] = {%s};' % (n, m, ', '.join(map(str, vals))))
                else:
                    decls.append('  int %s[%d];' % (n, m))
                    sc.inits.append('  for (%s = 0; %s < %d; %s++) %s[%s] = %s * 3;' % (names[0], names[0], m, names[0], n, names[0], names[0]))
                sc.arrs_pending.append(a)
            if self.structs and r.random() < 0.5:
                st = r.choice(self.structs)
                n = self.fresh(None, sc)
                decls.append('  struct %s %s;' % (st.tag, n))
                for f in st.fields:
                    sc.inits.append('  %s.%s = %d;' % (n, f, r.randint(0, 5)))
                sc.sptrs_pending.append(Sptr(n, st, n, dot=True))
        # a pointer into a global array, or a pointer parameter
        ga = [a for a in self.garrs + sc.arrs if a.n >= 2]
        if ga and r.random() < 0.6:
            a = r.choice(ga)
            n = self.fresh(None, sc)
            off = r.randrange(0, a.n - 1)
            decls.append('  %s *%s = %s;' % ('char' if a.ro else 'int', n, a.name if off == 0 else '%s + %d' % (a.name, off)))
            sc.arrs_pending.append(Arr(n, a.n - off, a.lo, a.hi, res=a.res, ro=a.ro, ptr=True))
        if self.structs and r.random() < 0.4:
            st = r.choice(self.structs)
            n = self.fresh(None, sc)
            decls.append('  struct %s *%s = malloc(sizeof(struct %s));' % (st.tag, n, st.tag))
            for f in st.fields:
                sc.inits.append('  %s->%s = %d;' % (n, f, r.randint(0, 5)))
            sc.sptrs_pending.append(Sptr(n, st, n))
            self.note('malloc struct')
        if r.random() < 0.3:
            n = self.fresh(None, sc)
            m = r.randint(1, 6)
            decls.append('  int *%s = malloc(%d * sizeof(int));' % (n, m))
            sc.inits.append('  for (%s = 0; %s < %d; %s++) { %s[%s] = %s; }' % (names[1], names[1], m, names[1], n, names[1], names[1]))
            sc.arrs_pending.append(Arr(n, m, -1000, 1000, ptr=True))
            self.note('malloc array')
        sc.vars += sc.pending + loopvars
        sc.arrs += sc.arrs_pending
        sc.sptrs += sc.sptrs_pending
        sc.free_counters = loopvars
        return [d for d in decls if d] + sc.inits

    def recursive(self):
        """Templates of recursive functions, whose locals must survive the calls"""
        r = self.r
        n, m, t = [self.fresh(None, Scope(self)) for _ in range(3)]
        while len({n, m, t}) < 3 or {n, m, t} & self.used:
            n, m, t = [r.choice(self.names) + str(r.randrange(100)) for _ in range(3)]
        name = self.fresh('rec')
        k = r.randint(3, 6)
        other = r.choice([f for f in self.fns if not f.void and not f.params] or [None])
        body = r.choice([
            ['int %(f)s(int %(n)s, int %(m)s) {', '  int %(t)s;', '  if (%(n)s <= 0) { return %(m)s; }', '  %(t)s = %(f)s(%(n)s - 1, %(m)s + %(n)s);', '  out(%(n)s);', '  return %(t)s - %(n)s;', '}'],
            ['int %(f)s(int %(n)s, int %(m)s) {', '  int %(t)s = %(n)s * 2;', '  if (%(n)s < 2) return %(n)s + %(m)s;', '  %(t)s = %(t)s + %(f)s(%(n)s - 1, %(m)s) + %(f)s(%(n)s - 2, %(m)s + 1);', '  return %(t)s - %(n)s;', '}'],
            ['int %(f)s(int %(n)s, int %(m)s) {', '  int %(t)s = 0;', '  while (%(t)s < %(n)s) {', '    out(%(f)s(%(n)s - 2, %(t)s) + %(m)s);', '    %(t)s++;', '  }', '  return %(n)s + %(m)s + %(t)s;', '}'],
            ['int %(f)s(int %(n)s, int %(m)s) {', '  int %(t)s;', '  switch (%(n)s) {', '    case 0: return %(m)s;', '    case 1: %(t)s = 5; break;', '    default: %(t)s = %(f)s(%(n)s - 2, %(m)s); break;', '  }',
             '  if (%(n)s > 0 && %(f)s(%(n)s - 1, 1) > %(t)s || %(m)s == 3) { %(t)s += %(n)s; }', '  return %(t)s;', '}'],
        ])
        self.lines += [l % dict(f=name, n=n, m=m, t=t) for l in body] + ['']
        g = Fn(name, [Var('n', 0, k), Var('m', -20, 20)], -3000, 3000, 160, {'#io', '#mem'}, {'#io', '#mem'})
        g.recursive = True
        self.fns.append(g)
        self.funs[name] = g
        self.note('recursion')

    def generate(self):
        r = self.r
        self.funs = {}
        L = self.lines
        self.used |= {'out', 'main', 'main2', 'setup', 'main0', 'printf', 'putchar', 'malloc', 'exit', 'free', 'getchar', 'read', 'write', 'open', 'close'}
        consts = []
        if r.random() < 0.8:
            vals = [r.randint(0, 20) for _ in range(3)]
            ns = [self.fresh('C') for _ in range(3)]
            L.append('enum { %s = %d, %s, %s = %d };' % (ns[0], vals[0], ns[1], ns[2], vals[2]))
            consts += list(zip(ns, [vals[0], vals[0] + 1, vals[2]]))
        if r.random() < 0.8:
            n = self.fresh('M')
            v = r.randint(1, 30)
            L.append('#define %s %d' % (n, v))
            consts.append((n, v))
        for n, v in consts:
            c = Var(n, v, v, 'const')
            c.ro = True
            self.globals.append(c)
        for k in range(r.randint(2, 4)):
            lo, hi = r.choice([(-1000, 1000), (0, 255), (-100000, 100000)])
            v = Var(self.fresh(), lo, hi, glob=True)
            L.append('int %s%s;' % (v.name, ' = %d' % r.randint(max(lo, -9), 9) if r.random() < 0.5 else ''))
            self.globals.append(v)
        v = Var(self.fresh(), -100000, 100000, 'counter', glob=True)
        L.append('int %s;' % v.name)
        self.globals.append(v)
        for k in range(r.randint(1, 3)):
            n = r.choice([2, 3, 4, 5, 8])
            a = Arr(self.fresh(), n, -1000, 1000)
            if r.random() < 0.5:
                vals = [str(r.choice([r.randint(0, 99), r.randint(0, 999)])) for _ in range(n)]
                L.append('int %s[%s] = {%s};' % (a.name, n if r.random() < 0.6 else '', ', '.join(vals)))
            else:
                L.append('int %s[%d];' % (a.name, n))
            self.garrs.append(a)
        if r.random() < 0.6:
            s = ''.join(r.choice('abcxyz 0189!?%$"\\`*[]{}()<>|&;~#') for _ in range(r.randint(1, 12)))
            a = Arr(self.fresh(), len(s) + 1, 0, 127, ro=True, ptr=True)
            L.append('char *%s = "%s";' % (a.name, s.replace('\\', '\\\\').replace('"', '\\"')))
            self.garrs.append(a)
        for k in range(r.randint(0, 2)):
            st = Struct(self.fresh('S'), {})
            # member names are shared between structures
            for f in r.sample(['a', 'b', 'next', 'val', 'size', 'x', 'status', 'p'], r.randint(1, 4)):
                if self.sh and k:
                    f += '2'
                st.fields[f] = r.choice([(-1000, 1000), (-100, 100)])
            L.append('struct %s { %s };' % (st.tag, ' '.join('int %s;' % f for f in st.fields)))
            self.structs.append(st)
            g = Sptr(self.fresh(), st, None)
            g.res = g.name + '#'
            L.append('struct %s *%s;' % (st.tag, g.name))
            self.gsptrs.append(g)
        if self.gsptrs:
            L.append('void setup() {')
            for g in self.gsptrs:
                L.append('  %s = malloc(sizeof(struct %s));' % (g.name, g.st.tag))
                for f in g.st.fields:
                    L.append('  %s->%s = %d;' % (g.name, f, r.randint(-9, 9)))
            L.append('}')
        L.append('')
        # '#mem' aliases every array and structure: a pointer parameter may point to any of them
        for i in range(self.nfuns):
            if r.random() < 0.2:
                self.recursive()
            else:
                self.function(i)
        sc = Scope(self)
        sc.ret = (0, 100)
        sc.noexit = True
        body = []
        self.budget *= 3
        decls = self.locals(sc)
        body += self.block(sc, r.randint(4, 8), 2, '  ')
        for f in self.fns:
            for _ in range(2):
                if sc.cost + f.cost < self.budget:
                    a = self.args(sc, f, 1)
                    if a is not None:
                        try:
                            X.effects(('call', f.name, a), self.funs)
                        except X.UB:
                            continue
                        sc.cost += f.cost
                        self.clear(sc)
                        c = pr(('call', f.name, a))
                        body.append('  %s;' % (c if f.void else 'out(%s)' % c))
        for v in self.globals:
            body.append('  out(%s);' % v.name)
        for a in self.garrs:
            for k in range(a.n):
                body.append('  out(%s[%d]);' % (a.name, k))
        rc = r.randint(0, 90)
        if self.gsptrs:
            # the initializers of the locals may use the structures
            L += ['int main2() {'] + decls + body + ['  return %d;' % rc, '}', '', 'int main() {', '  setup();', '  return main2();', '}', '']
        else:
            L += ['int main() {'] + decls + body + ['  return %d;' % rc, '}', '']
        return '\n'.join(L)

    def source(self, prelude):
        return prelude + self.generate()


class Scope:
    def __init__(self, p):
        self.names = set()
        self.vars, self.arrs, self.sptrs = [], [], []
        self.pending, self.arrs_pending, self.sptrs_pending = [], [], []
        self.inits = []
        self.cost, self.mult = 0, 1
        self.loops = []
        self.inswitch = False
        self.noexit = False
        self.fn_void = False
        self.io = False
        self.free_counters = []
        self.loopdepth_volatile = False
        self.ret = (0, 0)

    def wr(self, f):
        pass


def wide(lo, hi):
    return min(lo, -100), max(hi, 100)


def param(p):
    if isinstance(p, Var):
        return 'int ' + p.name
    if isinstance(p, Arr):
        return '%s *%s' % ('char' if p.ro else 'int', p.name)
    return 'struct %s *%s' % (p.st.tag, p.name)
