"""C06: macros are expanded as in C."""
import random, re
from .. import cases, diff, macros, meta, probes, progs


def deepen(rng, src):
    """Add redundant parentheses, sometimes many, around arguments of calls and right operands"""
    head, m, body = src.partition('\nint ')

    def paren(x):
        n = rng.choice([0, 0, 0, 1, 2, 3, 5, 9, 14])
        return '(' * n + x + ')' * n
    body = re.sub(r'\bout\(([A-Za-z_0-9]+)\)', lambda k: 'out(%s)' % paren(k[1]), body)
    return head + m + re.sub(r'( [-+*&|^<>] )([0-9]+)\b(?![ ]*[\[(])', lambda k: k[1] + (paren(k[2]) if rng.random() < 0.2 else k[2]), body)


def check(ck):
    ck.rule = 'distinct programs folded into macros whose compilation was compared with that of their expansion'
    ck.assumptions = ['gcc -E certifies that the folded program expands to the plain one', 'macros are not nested in their own arguments (known finding)']
    ts = [diff.sh(ck, ['dash']), diff.native(ck, 'x86_64'), diff.native(ck, 'i386')]

    def one(s):
        rng = random.Random('%d/macro/%d' % (ck.seed, s))
        t = ts[s % 3]
        dialect = 'sh' if t.shells else t.name
        src = progs.Prog(rng, dialect, budget=rng.choice([300, 500]), nfuns=rng.randint(2, 4)).source(cases.SH_PRELUDE if t.shells else cases.NAT_PRELUDE)
        if s % 2:
            src = deepen(rng, src)
        d, stats = macros.fold_program(rng, src, maxdepth=rng.choice([1, 2, 3, 4, 5]))
        t1, r = meta.pptokens(ck, d)
        t2, _ = meta.pptokens(ck, src)
        if t1 is None or t1 != t2:
            ck.unsure('the generated macros do not expand to the program: %r' % r.err[:200])
            ck.count()
            return
        f, g = ck.s.write(src, '.c'), ck.s.write(d, '.c')
        meta.same(ck, t, f, g, 'macro expansion, program %d' % s, files={'input.c': d})
        ck.seen(d)
        for k, v in stats.items():
            ck.bump('use of ' + k, v)
        if s == 0:
            ck.sample(d)
    ck.pmap(one, range(ck.scale(700, 12000)))
    fixed(ck, ts)
    probes.run(ck)


# fixed programs: predefined macros, stringizing through a macro, recursion of the macros
BOTH = r'''
void show(char *s) { while (*s) { putchar(*s); s += 1; } putchar('\n'); }
#define STR(x) #x
#define XSTR(x) STR(x)
#define NAME hello
typedef int tname;
#define KW while
#define first(a, b) a
#define second(a, b) b
#define apply(f, x, y) f(x, y)
#define EMPTY
#define LPAREN (
#define f(x) ((x) + 1)
#define g f
#define LOOP LOOP
#define PING PONG
#define PONG PING
#define CAT(a, b) a ## b
#define CAT3(a, b, c) a ## b ## c
#define VARN(n) CAT(var, n)
#define MANY(a, b, c, d, e, f, g, h, i, j) j i h g f e d c b a
#define PAIR 3, 4
#define ADD(p) add2(p)
int var1 = 11; int var23 = 23; int LOOP = 5; int PING = 6; int PONG = 7;
int add2(int a, int b) { return a * 10 + b; }
#define add2(a, b) add2(a, b)
int h(int f) { return f; }
#define h(x) h(x + 1)
int main() {
  show(STR(ident)); show(XSTR(NAME)); show(STR(NAME)); show(STR(while)); show(XSTR(KW)); show(STR( int )); show(STR()); show(XSTR(EMPTY)); show(STR(tname)); show("a" STR() "b");
  out(first((1, 2), 3) == 2); out(second((1, 2), 3)); out(apply(first, 4, 5)); out(apply(second, 4, 5));
  out(f(f(1)) EMPTY EMPTY); out(g(3)); out(f (4)); out(f
    (5));
  out(LOOP); out(PING); out(PONG);
  out(VARN(1)); out(VARN(23)); out(CAT(1, 0)); out(CAT(10, 23)); out(CAT3(va, r, 1)); out(CAT3(1, 0, 0));
  out(MANY(1, +, 2, -, 4, *, 5, ^, 3, +));
  out(ADD(PAIR)); out(add2(1, 2)); out(h(1));
  out(first(7,)); out(second(,8));
#define X 1
  out(X);
#undef X
#define X 2
  out(X
#undef X
#define X 3
  ); out(X);
#define DEFER(x) x
  out(DEFER(f)(9));
#define BR { out(55);
#define KET }
  if (1) BR KET
#define ELSE else
  if (0) out(1); ELSE out(2);
  return 0;
}
'''


def fixed(ck, ts):
    for t in ts:
        pre = cases.SH_PRELUDE if t.shells else cases.NAT_PRELUDE
        src = pre + BOTH
        if t.shells:
            src = src.replace('out(first((1, 2), 3) == 2); ', '')
        diff.check_source(ck, src, [t], 'fixed macros')
        ck.count()
        ck.seen('fixed', t.name)
