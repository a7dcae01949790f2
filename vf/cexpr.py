"""C expression trees: typed concrete evaluation (to keep generated programs free of
undefined behaviour), minimal-parenthesis printing, and random generation.

The evaluator is only a filter: the oracle is a reference execution by gcc with
sanitizers, which certifies the program again.

Trees are tuples:
  ('v', name)  ('n', text, value, type)  ('u', op, e)  ('b', op, l, r)  ('t', c, a, b)
  ('=', op, lv, e)   op is '' or a binary operator
  ('++', lv) ('--', lv) ('p++', lv) ('p--', lv)     prefix and postfix
  ('i', arr, e)  element of an array    ('cast', type, e)   ('()', e)   forced parentheses
  ('call', name, [args])   calls of the functions of FUNS
"""
from collections import namedtuple

T = namedtuple('T', 'name bits signed rank')
TYPES = {t.name: t for t in [
    T('char', 8, True, 1), T('unsigned char', 8, False, 1), T('short', 16, True, 2), T('unsigned short', 16, False, 2),
    T('int', 32, True, 3), T('unsigned int', 32, False, 3), T('long long', 64, True, 4), T('unsigned long long', 64, False, 4)]}
INT, UINT, LONG, ULONG = TYPES['int'], TYPES['unsigned int'], TYPES['long long'], TYPES['unsigned long long']
CHAR = TYPES['char']


class UB(Exception):
    pass


def lo(t):
    return -(1 << (t.bits - 1)) if t.signed else 0


def hi(t):
    return (1 << (t.bits - 1)) - 1 if t.signed else (1 << t.bits) - 1


def conv(v, t):
    v &= (1 << t.bits) - 1
    if t.signed and v >> (t.bits - 1):
        v -= 1 << t.bits
    return v


def promote(t):
    return INT if t.rank < 3 else t


def usual(a, b):
    a, b = promote(a), promote(b)
    if a.rank == b.rank:
        return a if not a.signed else b
    if a.rank < b.rank:
        a, b = b, a
    # a has the larger rank; it is wider in all the cases here
    return a


def check(v, t):
    if t.signed:
        if v < lo(t) or v > hi(t):
            raise UB('overflow')
        return v
    return conv(v, t)


def arith(op, a, ta, b, tb):
    if op in ('<<', '>>'):
        t = promote(ta)
        if b < 0 or b >= t.bits:
            raise UB('shift count')
        if op == '<<':
            if t.signed and a < 0:
                raise UB('shift of a negative value')
            return check(a << b, t), t
        return a >> b, t
    t = usual(ta, tb)
    a, b = conv(a, t), conv(b, t)
    if op in ('<', '<=', '>', '>=', '==', '!='):
        return int({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]), INT
    if op == '+':
        return check(a + b, t), t
    if op == '-':
        return check(a - b, t), t
    if op == '*':
        return check(a * b, t), t
    if op in ('/', '%'):
        if b == 0:
            raise UB('division by zero')
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        check(q, t)
        return (q if op == '/' else a - q * b), t
    return {'&': a & b, '|': a | b, '^': a ^ b}[op], t


class Env:
    """vars: name -> [type, value]; arrays: name -> (type, [values])"""

    def __init__(self, vars, arrays=None, funs=None, strict=False, trace=None):
        self.vars, self.arrays, self.funs = vars, arrays or {}, funs or {}
        self.strict = strict      # conversions must preserve values (shell dialect)
        self.trace = trace if trace is not None else []
        self.noneg0 = False       # no product or negation that gives -0 in ksh (known finding)

    def store(self, lv, v):
        if lv[0] == 'v':
            c = self.vars[lv[1]]
            n = conv(v, c[0])
            if self.strict and n != v:
                raise UB('narrowing')
            c[1] = n
            return n, c[0]
        t, vals = self.arrays[lv[1]]
        i = lv[2]
        n = conv(v, t)
        if self.strict and n != v:
            raise UB('narrowing')
        vals[i] = n
        return n, t

    def lval(self, e):
        if e[0] == 'v':
            return e
        if e[0] == '()':
            return self.lval(e[1])
        i, _ = self.ev(e[2])
        if i < 0 or i >= len(self.arrays[e[1]][1]):
            raise UB('index')
        return ('i', e[1], i)

    def load(self, lv):
        if lv[0] == 'v':
            t, v = self.vars[lv[1]]
            return v, t
        t, vals = self.arrays[lv[1]]
        return vals[lv[2]], t

    def ev(self, e):
        k = e[0]
        if k == 'v':
            t, v = self.vars[e[1]]
            return v, t
        if k == 'n':
            return e[2], e[3]
        if k == '()':
            return self.ev(e[1])
        if k == 'i':
            return self.load(self.lval(e))
        if k == 'u':
            v, t = self.ev(e[2])
            if e[1] == '!':
                return int(v == 0), INT
            p = promote(t)
            if e[1] == '-':
                if self.noneg0 and v == 0:
                    raise UB('-0')
                return check(-v, p), p
            if e[1] == '~':
                return conv(~v, p), p
            return v, p
        if k == 'cast':
            v, t = self.ev(e[2])
            n = conv(v, e[1])
            if self.strict and n != v:
                raise UB('narrowing')
            return n, e[1]
        if k == 'b':
            op = e[1]
            if op in ('&&', '||') and self.strict:
                self.eager(e[3])
            if op == '&&':
                return int(self.ev(e[2])[0] != 0 and self.ev(e[3])[0] != 0), INT
            if op == '||':
                return int(self.ev(e[2])[0] != 0 or self.ev(e[3])[0] != 0), INT
            if op == ',':
                self.ev(e[2])
                return self.ev(e[3])
            a, ta = self.ev(e[2])
            b, tb = self.ev(e[3])
            if self.noneg0 and op == '*' and a * b == 0 and (a < 0 or b < 0):
                raise UB('-0')
            return arith(op, a, ta, b, tb)
        if k == 't':
            if self.strict:
                self.eager(e[2])
                self.eager(e[3])
            c, _ = self.ev(e[1])
            t = usual(self.typ(e[2]), self.typ(e[3]))
            v, _ = self.ev(e[2] if c else e[3])
            return conv(v, t), t
        if k == '=':
            lv = self.lval(e[2])
            v, tv = self.ev(e[3])
            if e[1]:
                a, ta = self.load(lv)
                if self.noneg0 and e[1] == '*' and a * v == 0 and (a < 0 or v < 0):
                    raise UB('-0')
                v, tv = arith(e[1], a, ta, v, tv)
            n, t = self.store(lv, v)
            if n != v and not e[1]:
                # the value of a narrowing = is not converted by the native backends (known finding)
                raise UB('narrowing')
            return n, t
        if k in ('++', '--', 'p++', 'p--'):
            lv = self.lval(e[1])
            a, ta = self.load(lv)
            v, _ = arith(k[-1], a, ta, 1, INT)
            n, t = self.store(lv, v)
            return (a if k[0] == 'p' else n), t
        if k == 'call':
            args = [self.ev(a) for a in e[2]]
            f = self.funs[e[1]]
            pv = []
            for (v, _), pt in zip(args, f.params):
                n = conv(v, pt)
                if self.strict and n != v:
                    raise UB('narrowing')
                pv.append(n)
            return f.call(self, pv), f.ret
        raise AssertionError(k)

    def eager(self, e):
        """The shell evaluates the addresses of conditional operands unconditionally"""
        for x in walk(e):
            if x[0] == 'i' and not (x[2][0] == 'n'):
                self.lval(x)

    def typ(self, e):
        k = e[0]
        if k == 'v':
            return self.vars[e[1]][0]
        if k == 'n':
            return e[3]
        if k == '()':
            return self.typ(e[1])
        if k == 'i':
            return self.arrays[e[1]][0]
        if k == 'u':
            return INT if e[1] == '!' else promote(self.typ(e[2]))
        if k == 'cast':
            return e[1]
        if k == 'b':
            if e[1] == ',':
                return self.typ(e[3])
            if e[1] in ('&&', '||', '<', '<=', '>', '>=', '==', '!='):
                return INT
            if e[1] in ('<<', '>>'):
                return promote(self.typ(e[2]))
            return usual(self.typ(e[2]), self.typ(e[3]))
        if k == 't':
            return usual(self.typ(e[2]), self.typ(e[3]))
        if k == '=':
            return self.typ(e[2])
        if k in ('++', '--', 'p++', 'p--'):
            return self.typ(e[1])
        return self.funs[e[1]].ret


PREC = {',': 1, '=': 2, '?': 3, '||': 4, '&&': 5, '|': 6, '^': 7, '&': 8, '==': 9, '!=': 9, '<': 10, '<=': 10, '>': 10, '>=': 10,
        '<<': 11, '>>': 11, '+': 12, '-': 12, '*': 13, '/': 13, '%': 13, 'u': 14, 'post': 15, 'prim': 16}
BINOPS = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '<', '<=', '>', '>=', '==', '!=', '&&', '||']


def prec(e):
    k = e[0]
    if k == 'raw':
        return e[2]
    if k in ('v', '()', 'n'):
        return 14 if k == 'n' and e[1].startswith('-') else 16
    if k in ('i', 'call', 'p++', 'p--'):
        return 15
    if k in ('u', 'cast', '++', '--'):
        return 14
    if k == 'b':
        return PREC[e[1]]
    if k == 't':
        return 3
    return 2


def pr(e, p=0, sp=' '):
    """Print e so that it can be an operand requiring precedence >= p"""
    s = pr0(e, sp)
    return '(' + s + ')' if prec(e) < p else s


def pr0(e, sp):
    k = e[0]
    if k in ('v', 'n', 'raw'):
        return e[1]
    if k == '()':
        return '(' + pr(e[1], 0, sp) + ')'
    if k == 'i':
        return '%s[%s]' % (e[1], pr(e[2], 0, sp))
    if k == 'u':
        s = pr(e[2], 14, sp)
        if e[1] in '+-&' and s[:1] == e[1]:
            s = ' ' + s
        return e[1] + s
    if k == 'cast':
        return '(%s)%s%s' % (e[1].name, sp, pr(e[2], 14, sp))
    if k == 'b':
        q = PREC[e[1]]
        l, r = pr(e[2], q, sp), pr(e[3], q + 1, sp)
        s = sp
        if not sp and (e[1] in '+-&' and (r[:1] == e[1] or l[-1:] == e[1])):
            s = ' '
        if not sp and e[1] == '/' and r[:1] == '*':
            s = ' '
        return l + s + e[1] + s + r
    if k == 't':
        return '%s%s?%s%s%s:%s%s' % (pr(e[1], 4, sp), sp, sp, pr(e[2], 0 if False else 3, sp), sp, sp, pr(e[3], 3, sp))
    if k == '=':
        return '%s%s%s=%s%s' % (pr(e[2], 14, sp), sp, e[1], sp, pr(e[3], 2, sp))
    if k in ('++', '--'):
        return k + pr(e[1], 14, sp)
    if k in ('p++', 'p--'):
        return pr(e[1], 15, sp) + k[1:]
    if k == 'call':
        return '%s(%s)' % (e[1], (',' + sp).join(pr(a, 2, sp) for a in e[2]))
    raise AssertionError(k)


# effects: (reads, writes, io) of variables and arrays, not through sequence points
def effects(e, funs=None):
    """Returns (reads, writes) or raises UB when unsequenced operands conflict.
    The trace of calls is the resource '#io'."""
    k = e[0]
    if k == 'v':
        return {e[1]}, set()
    if k == 'raw':
        return set(e[3]), set(e[4])
    if k == 'n':
        return set(), set()
    if k in ('()',):
        return effects(e[1], funs)
    if k == 'i':
        r, w = effects(e[2], funs)
        return r | {e[1]}, w
    if k == 'u' or k == 'cast':
        return effects(e[2], funs)
    if k == 'b':
        a, b = effects(e[2], funs), effects(e[3], funs)
        if e[1] not in ('&&', '||', ','):
            clash(a, b)
        return a[0] | b[0], a[1] | b[1]
    if k == 't':
        a, b, c = effects(e[1], funs), effects(e[2], funs), effects(e[3], funs)
        return a[0] | b[0] | c[0], a[1] | b[1] | c[1]
    if k == '=':
        lvr, lvw = effects(e[2], funs)
        name = lvname(e[2])
        b = effects(e[3], funs)
        lvr2 = lvr if e[1] else lvr - {name}
        clash((lvr2, lvw), b)
        if name in b[1] or name in lvw:
            raise UB('unsequenced')
        return lvr | b[0], lvw | b[1] | {name}
    if k in ('++', '--', 'p++', 'p--'):
        r, w = effects(e[1], funs)
        name = lvname(e[1])
        if name in w or (e[1][0] == 'i' and name in effects(e[1][2], funs)[0]):
            raise UB('unsequenced')
        return r, w | {name}
    if k == 'call':
        R, W = set(), set()
        for a in e[2]:
            x = effects(a, funs)
            clash((R, W), x)
            R |= x[0]; W |= x[1]
        f = funs[e[1]]
        # the arguments are evaluated before the call
        return R | f.reads, W | f.writes
    raise AssertionError(k)


def lvname(lv):
    """The resource written by an assignment to lv"""
    while lv[0] == '()':
        lv = lv[1]
    return lv[5] if lv[0] == 'raw' else lv[1]


def sh_ok(e, funs, test=False):
    """The limits of the shell dialect recorded in known_findings.txt: addresses in conditional
    operands have no side effects, and do not depend on those of the preceding operands"""
    k = e[0]
    if test and k == '()':
        return sh_ok(e[-1], funs, test)
    if test and k == 'b' and e[1] in ('&&', '||'):
        return sh_ok(e[2], funs, test) and sh_ok(e[3], funs, test)
    for x in walk(e):
        ops = [x[3]] if x[0] == 'b' and x[1] in ('&&', '||') else [x[2], x[3]] if x[0] == 't' else []
        if not ops:
            continue
        left = effects(x[2] if x[0] == 'b' else x[1], funs)
        for o in ops:
            for y in walk(o):
                if y[0] == 'i':
                    r, w = effects(y[2], funs)
                    if w or r & left[1]:
                        return False
            if x[0] == 't' and any(y[0] == 'call' for y in walk(o)):
                return False
            if has_call(x) and x[0] == 'b':
                return False
    return True


def clash(a, b):
    if a[1] & (b[0] | b[1]) or b[1] & (a[0] | a[1]):
        raise UB('unsequenced')


def walk(e):
    yield e
    for x in e[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str) and not isinstance(x, T):
            yield from walk(x)
        elif isinstance(x, list):
            for y in x:
                yield from walk(y)


def has_call(e):
    return any(x[0] == 'call' for x in walk(e))


def lit(v, t=INT, fmt='d'):
    """A literal of value v.  Negative values are unary minus trees."""
    suf = {'int': '', 'long long': 'LL', 'unsigned int': 'U', 'unsigned long long': 'ULL'}[t.name]
    if v < 0:
        if v == lo(t):
            return ('b', '-', ('u', '-', lit(-(v + 1), t, fmt)), lit(1, t))
        return ('u', '-', lit(-v, t, fmt))
    s = {'d': '%d', 'x': '0x%x', 'o': '0%o', 'X': '0X%X'}[fmt] % v
    return ('n', s + suf, v, t)


class Gen:
    """Random expressions over the variables, arrays and functions of an environment"""

    def __init__(self, rng, vars, arrays=(), funs=None, consts=None, casts=(), dialect='native', calls=True, sidefx=True, comma=False):
        self.rng, self.vars, self.arrays, self.funs = rng, list(vars), list(arrays), funs or {}
        self.consts = consts or [0, 1, 2, 3, 5, 7, 10, 100, 255, 256]
        self.casts = list(casts)
        self.dialect, self.calls, self.sidefx, self.comma = dialect, calls, sidefx, comma
        self.fmts = 'dddxoX'

    def leaf(self):
        r = self.rng
        if r.random() < 0.7:
            return ('v', r.choice(self.vars))
        return self.literal()

    def literal(self):
        r = self.rng
        v = r.choice(self.consts)
        t = INT
        if isinstance(v, tuple):
            v, t = v
        if self.dialect == 'sh' and v > 9 and r.random() < 0.3 and 32 <= v < 127 and chr(v) not in "'\\":
            return ('n', "'%s'" % chr(v), v, INT)
        fmt = r.choice(self.fmts)
        return lit(v, t, fmt if v >= 0 and (fmt == 'd' or not (t == INT and v > 0x7fffffff)) else 'd')

    def lvalue(self, depth):
        r = self.rng
        if self.arrays and r.random() < 0.35:
            return self.elem(depth, True)
        return ('v', r.choice(self.vars))

    def elem(self, depth, lv=False):
        r = self.rng
        a, n = r.choice(self.arrays)
        if r.random() < 0.4 or depth <= 0:
            return ('i', a, lit(r.randrange(n)))
        if lv and self.dialect == 'sh':
            # the index of an lvalue only uses operators of precedence + or more (known finding)
            if r.random() < 0.6:
                return ('i', a, r.choice([('v', r.choice(self.vars)), ('b', r.choice('+-'), ('v', r.choice(self.vars)), lit(r.randrange(4)))]))
            return ('i', a, ('b', '%', self.expr(depth - 1, calls=False), lit(n)))
        i = self.expr(depth - 1, calls=False)
        # masked index, with an operator of precedence + (see the known findings for the others in the shell dialect)
        if self.dialect == 'sh':
            return ('i', a, ('()', ('b', '&', i, lit(n - 1))))
        return ('i', a, ('b', '&', i, lit(n - 1)))

    def expr(self, depth, calls=None, test=False):
        r = self.rng
        if calls is None:
            calls = self.calls
        if depth <= 0:
            return self.leaf()
        x = r.random()
        if x < 0.50:
            op = r.choice(BINOPS)
            sub = calls
            if op in ('&&', '||') and self.dialect == 'sh' and not test:
                sub = False
            t2 = test and op in ('&&', '||')
            a = self.expr(depth - 1, sub, t2)
            b = self.expr(depth - 1 - (r.random() < 0.3), sub, t2)
            if op in ('<<', '>>') and r.random() < 0.8:
                b = r.choice([lit(r.randrange(0, 8)), ('()', ('b', '&', b, lit(7)))])
            if op in ('/', '%') and r.random() < 0.6:
                b = r.choice([lit(r.randrange(1, 20)), ('()', ('b', '|', b, lit(1)))])
            return ('b', op, a, b)
        if x < 0.64:
            op = r.choice('-~!!-~+')
            return ('u', op, self.expr(depth - 1, calls))
        if x < 0.72:
            sub = calls and self.dialect != 'sh'
            return ('t', self.expr(depth - 1, sub), self.expr(depth - 1, sub), self.expr(depth - 1, sub))
        if x < 0.78 and self.arrays:
            return self.elem(depth)
        if x < 0.84 and self.sidefx:
            op = r.choice(['', '', '+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>'])
            rhs = self.expr(depth - 1, calls)
            if op in ('<<', '>>'):
                rhs = r.choice([lit(r.randrange(0, 8)), ('b', '&', rhs, lit(7))])
            if op in ('/', '%'):
                rhs = ('b', '|', rhs, lit(1))
            return ('=', op, self.lvalue(depth), rhs)
        if x < 0.90 and self.sidefx:
            return (r.choice(['++', '--', 'p++', 'p--']), self.lvalue(depth))
        if x < 0.96 and calls and self.funs:
            f = r.choice(sorted(self.funs))
            return ('call', f, [self.expr(depth - 1 - (r.random() < 0.4), calls) for _ in self.funs[f].params])
        if self.casts and x < 0.99:
            return ('cast', r.choice(self.casts), self.expr(depth - 1, calls))
        if self.comma:
            return ('b', ',', self.expr(depth - 1, calls), self.expr(depth - 1, calls))
        return ('()', self.expr(depth - 1, calls, test))
