"""Exhaustive directed batteries of expression cases."""
from . import cexpr as X
from .cases import CaseProgram, CONTEXTS, TESTS, INTERESTING, value
from .cexpr import INT, lit

BIN = X.BINOPS
ASG = ['', '+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>']
V = lambda n: ('v', n)
a, b, c, l, m, g = [V(x) for x in 'abclmg']


def simple_values(op):
    if op in ('<<', '>>'):
        return 'shift'
    return None


class Battery:
    """Collects cases in programs of a bounded size"""

    def __init__(self, rng, dialect, per=120, noneg0=False, fmts=None, prelude=None):
        self.rng, self.dialect, self.per, self.noneg0, self.fmts = rng, dialect, per, noneg0, fmts
        self.prelude = prelude
        self.programs = []
        self.dropped = 0
        self.new()

    def new(self):
        self.p = CaseProgram(self.rng, self.dialect, prelude=self.prelude)
        self.p.noneg0 = self.noneg0
        if self.fmts:
            self.p.fmts = self.fmts
        self.programs.append(self.p)

    def add(self, tree, ctx, lay=None, distinguish=None, nvals=3, small=0.8, tries=200):
        if len(self.p.bodies) >= self.per:
            self.new()
        p = self.p
        lay = lay or p.layout(typed=False)
        if ctx == 'ret' and any(x[0] in ('=', '++', '--', 'p++', 'p--') for x in X.walk(tree)):
            ctx = 'assign'
        if ctx == 'stmt' and tree[0] in ('v', 'n', 'i'):
            ctx = 'assign'
        vl = p.feasible(tree, ctx, lay, small=small, tries=tries, distinguish=distinguish, nvals=nvals)
        if not vl:
            vl = p.feasible(tree, 'assign', lay, small=small, tries=tries, distinguish=distinguish, nvals=nvals)
            ctx = 'assign'
        if not vl:
            self.dropped += 1
            return False
        p.add(tree, ctx, lay, vl, key=(ctx, X_shape(tree)))
        return True

    # -- the batteries -----------------------------------------------------
    def lay(self, typed):
        return self.p.layout(typed=typed)

    def operators(self, typed=False, contexts=CONTEXTS, ops=BIN):
        """Every operator in every context, on variables and constants"""
        r = self.rng
        sh = self.dialect == 'sh'
        for op in ops:
            for ctx in contexts:
                k = lit(r.choice([1, 2, 3, 5]))
                for t in [('b', op, a, b), ('b', op, l, k), ('b', op, lit(r.choice([1, 3, 8, 17, 100])), b)]:
                    self.add(t, ctx, self.lay(typed), nvals=4, small=0.7)
        for op in '-~!+':
            for ctx in contexts:
                self.add(('u', op, a), ctx, self.lay(typed))
                self.add(('u', op, ('u', r.choice('-~!'), l)), ctx, self.lay(typed))
        for ctx in contexts:
            self.add(('t', a, b, c), ctx, self.lay(typed))
            self.add(('t', ('b', r.choice(['<', '==', '>=']), a, b), lit(3), lit(4)), ctx, self.lay(typed))
            for op in ASG:
                self.add(('=', op, l, ('b', '|', b, lit(1)) if op in '/%' and op else b), ctx, self.lay(typed))
            for op in ['++', '--', 'p++', 'p--']:
                for lv in [l, g, ('i', 'ga', lit(r.randrange(4)))]:
                    self.add((op, lv), ctx, self.lay(typed))
            self.add(('call', 'f3', [a, b]), ctx, self.lay(typed))
            self.add(('call', 'f1', [a]), ctx, self.lay(typed))
            self.add(('i', 'ga', ('b', '&', a, lit(3)) if not sh else ('()', ('b', '&', a, lit(3)))), ctx, self.lay(typed))
            self.add(('n', '5', 5, INT), ctx, self.lay(typed))
            self.add(('n', '0', 0, INT), ctx, self.lay(typed))
            self.add(V(r.choice('abclmg')), ctx, self.lay(typed))

    def pairs(self, typed=False, contexts=CONTEXTS, percent=100):
        """Every pair of operators, grouped both ways, on values that tell the groupings apart"""
        r = self.rng
        for o1 in BIN:
            for o2 in BIN:
                for left in (True, False):
                    if r.random() * 100 >= percent:
                        continue
                    t1 = ('b', o2, ('b', o1, a, b), c)
                    t2 = ('b', o1, a, ('b', o2, b, c))
                    t, other = (t1, t2) if left else (t2, t1)
                    self.add(t, r.choice(contexts), self.lay(typed), distinguish=other, nvals=3)
        for o in BIN:
            for u in '-~!':
                t1, t2 = ('u', u, ('b', o, a, b)), ('b', o, ('u', u, a), b)
                self.add(t1, r.choice(contexts), self.lay(typed), distinguish=t2)
                self.add(t2, r.choice(contexts), self.lay(typed), distinguish=t1)
                self.add(('b', o, a, ('u', u, b)), r.choice(contexts), self.lay(typed))
            for t, other in [(('t', ('b', o, a, b), c, l), ('b', o, a, ('t', b, c, l))), (('b', o, a, ('t', b, c, l)), ('t', ('b', o, a, b), c, l)),
                             (('t', a, b, ('b', o, c, l)), ('b', o, ('t', a, b, c), l)), (('b', o, ('t', a, b, c), l), ('t', a, b, ('b', o, c, l))),
                             (('t', a, ('b', o, b, c), l), None)]:
                self.add(t, r.choice(contexts), self.lay(typed), distinguish=other)
            for asg in ASG:
                rhs = ('b', o, b, c)
                t = ('=', asg, l, rhs)
                self.add(t, r.choice(contexts), self.lay(typed), distinguish=('b', o, ('=', asg, l, b), c))
                self.add(('b', o, a, ('=', asg, m, b)), r.choice(contexts), self.lay(typed))
                self.add(('b', o, ('=', asg, m, b), a), r.choice(contexts), self.lay(typed))
            for inc in ['++', '--', 'p++', 'p--']:
                for lv in [l, m, g, ('i', 'ga', lit(r.randrange(4))), ('i', 'ga', ('b', '%', a, lit(4)))]:
                    self.add(('b', o, (inc, lv), b), r.choice(contexts), self.lay(typed))
                    self.add(('b', o, b, (inc, lv)), r.choice(contexts), self.lay(typed))
        self.add(('t', a, ('t', b, c, l), m), 'assign', self.lay(typed), distinguish=('t', ('t', a, b, c), l, m))
        self.add(('t', ('t', a, b, c), l, m), 'assign', self.lay(typed), distinguish=('t', a, b, ('t', c, l, m)))
        self.add(('t', a, b, ('t', c, l, m)), 'assign', self.lay(typed), distinguish=('t', ('t', a, b, c), l, m))
        for asg in ASG:
            for as2 in ASG:
                self.add(('=', asg, l, ('=', as2, m, b)), r.choice(contexts), self.lay(typed))
                self.add(('=', asg, ('i', 'ga', lit(1)), ('=', as2, ('i', 'ga', lit(2)), b)) if False else ('=', asg, g, ('=', as2, m, c)), r.choice(contexts), self.lay(typed))

    def logic(self):
        """Short-circuit evaluation with traced operands, in tests and as values"""
        r = self.rng
        f = lambda x: ('call', 'f1', [x])
        sh = self.dialect == 'sh'
        tests = sorted(TESTS)
        for op in ('&&', '||'):
            for o2 in ('&&', '||'):
                for x in (f(a), ('call', 'f3', [a, b]), ('b', '<', a, b)):
                    for y in (f(b), ('call', 'f2', [b, c]), ('=', '', l, b), ('b', '==', b, c)):
                        for t in [('b', op, x, y), ('b', op, ('b', o2, x, y), f(c)), ('b', op, f(c), ('b', o2, x, y))]:
                            for _ in range(2):
                                self.add(t, r.choice(tests) if sh else r.choice(CONTEXTS), self.lay(False), small=1.0)
                        if not sh:
                            self.add(('u', '!', ('b', op, x, y)), r.choice(tests), self.lay(False), small=1.0)
                # values of && and || with side effects in the operands
                for s in [('p++', l), ('=', '', m, b), ('=', '+', l, c), ('--', g)]:
                    self.add(('b', op, a, s), r.choice(CONTEXTS), self.lay(False), small=1.0)
                    self.add(('b', op, s, a), r.choice(CONTEXTS), self.lay(False), small=1.0)
                    self.add(('b', o2, ('b', op, a, s), b), r.choice(CONTEXTS), self.lay(False), small=1.0)
        for s in [('p++', l), ('=', '', m, b), ('=', '+', l, c), ('--', g)]:
            self.add(('t', a, s, b), r.choice(CONTEXTS), self.lay(False), small=1.0)
            self.add(('t', a, b, s), r.choice(CONTEXTS), self.lay(False), small=1.0)
            self.add(('t', s, a, b), r.choice(CONTEXTS), self.lay(False), small=1.0)
        for n in range(40):
            t = ('b', r.choice(BIN), ('call', 'f1', [('call', 'f1', [a])]), ('call', 'f3', [b, ('call', 'f3', [a, c])]))
            self.add(t, r.choice(CONTEXTS), self.lay(False))
            t = ('call', 'f2', [('call', 'f3', [a, b]), ('b', r.choice('+-*|'), c, lit(2))])
            self.add(t, r.choice(CONTEXTS), self.lay(False))
            self.add(('b', r.choice(BIN), ('call', 'f4', [a]), ('b', r.choice(BIN), b, ('call', 'f3', [c, l]))), r.choice(CONTEXTS), self.lay(False))

    def random(self, n, depth):
        for _ in range(n):
            if len(self.p.bodies) >= self.per:
                self.new()
            self.p.random_case(depth)

    def conversions(self, values=8, percent=100):
        """Every operator on every pair of types, with boundary values (native dialects)"""
        r = self.rng
        ts = []
        for t in self.p.types():
            if t not in ts:
                ts.append(t)
        for ta in ts:
            for tb in ts:
                for op in BIN:
                    if r.random() * 100 >= percent:
                        continue
                    lay = {k: INT for k in 'abclmgh'}
                    lay['a'], lay['b'], lay['l'], lay['ga'] = ta, tb, ta, INT
                    self.add(('b', op, a, b), r.choice(['assign', 'assign', 'ret', 'if', 'arg']), lay, nvals=values, small=0.15 if op not in ('<<', '>>') else 0.5)
                    if op not in ('&&', '||', '<', '<=', '>', '>=', '==', '!='):
                        self.add(('=', op, l, b), 'stmt', lay, nvals=4, small=0.3)
                self.add(('=', '', l, b), 'stmt', dict({k: INT for k in 'abcmgh'}, b=tb, l=ta, ga=INT), nvals=values, small=0.1)
                self.add(('cast', ta, b), 'assign', dict({k: INT for k in 'acmghl'}, b=tb, ga=INT), nvals=values, small=0.1)
                self.add(('cast', INT, ('cast', ta, ('b', '+', b, lit(1)))), 'assign', dict({k: INT for k in 'acmghl'}, b=tb, ga=INT), nvals=4, small=0.1)
                self.add(('t', c, a, b), 'assign', dict({k: INT for k in 'cmghl'}, a=ta, b=tb, ga=INT), nvals=4, small=0.3)
            for u in '-~!+':
                self.add(('u', u, a), 'assign', dict({k: INT for k in 'bcmghl'}, a=ta, ga=INT), nvals=values, small=0.1)
            for inc in ['++', '--', 'p++', 'p--']:
                self.add((inc, l), 'assign', dict({k: INT for k in 'abcmgh'}, l=ta, ga=INT), nvals=4, small=0.1)
                self.add((inc, ('i', 'ga', ('b', '&', a, lit(3)))), 'assign', dict({k: INT for k in 'abcmghl'}, ga=ta), nvals=4, small=0.1)
            self.add(('=', '', ('i', 'ga', lit(2)), b), 'stmt', dict({k: INT for k in 'abcmghl'}, ga=ta), nvals=4, small=0.1)
            self.add(('b', '+', ('i', 'ga', ('b', '&', a, lit(3))), b), 'assign', dict({k: INT for k in 'abcmghl'}, ga=ta), nvals=4, small=0.1)


def X_shape(t):
    from .cases import shape
    return shape(t)
