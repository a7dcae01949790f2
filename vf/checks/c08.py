"""C08: integer literals and constant expressions have the value C gives them."""
import random
from .. import cases, diff
from ..groups import Cond

DIFFERENT = [0, 1, 2, 7, 8, 9, 10, 15, 16, 17, 63, 64, 65, 99, 100, 127, 128, 255, 256, 511, 512, 1000, 4095, 4096, 32767, 32768, 65535, 65536, 123456, 0xabcdef,
             0x1234567, 0x7fffff, 0x800000, 0xffffff, 0x1000000, 0x7ffffffe, 0x7fffffff, 1000000000, 2000000000, 2147483600, 0x12345678, 0x76543210]
BIG = [0x80000000, 0x80000001, 0xffffffff, 0xfffffffe, 0x100000000, 0x100000001, 0xffffffffff, 4294967290, 9999999999, 0x7fffffffffffffff, 0x7ffffffffffffffe,
       1000000000000, 0x123456789abcdef0 >> 1, 0x8000000000000000 - 0x80000000, 0x7fffffff00000000, 0x00ffffff80000000, 1 << 53, 1 << 62, 0xdeadbeef, 3000000000]
UBIG = [0x8000000000000000, 0xffffffffffffffff, 0xfedcba9876543210, 0xffffffff00000000, 0xffffffff7fffffff, 0xffffffff80000000]


def spell(rng, v, bases='dxXo'):
    b = rng.choice(bases)
    if b == 'o':
        return '0%o' % v if v else rng.choice(['0', '00'])
    if b == 'x':
        return '0x' + ''.join(rng.choice([c, c.upper()]) for c in ('0' * rng.choice([0, 0, 0, 1, 4]) + '%x' % v))
    if b == 'X':
        return '0X%x' % v
    return '%d' % v


class Const(Cond):
    """Constant expressions outside of #if: literals, character constants"""

    def __init__(self, rng, sh=False, case=False):
        self.rng, self.macros, self.undef, self.funs, self.sh = rng, {}, [], {}, sh

    def leaf(self):
        r = self.rng
        k = r.random()
        if k < 0.12:
            c = r.choice("aZ0 ~@{!#$%&*()[]|;:,.<>?/+-=_^")
            return "'%s'" % c, ord(c)
        if k < 0.2:
            return r.choice([("'\\n'", 10), ("'\\0'", 0), ("'\\\\'", 92), ("'\\''", 39), ("'\"'", 34), ("'\\t'", 9), ("'\\101'", 65), ("'\\x41'", 65)])
        v = r.choice([0, 1, 2, 3, 5, 7, 8, 10, 31, 100, 255, 1000, 65536, 0x7fffffff, 0x40000000, r.randint(0, 50), r.randint(0, 0x7fffffff)])
        # hexadecimal literals as operands: kept out of the scripts executed by zsh only
        return spell(r, v, 'dddxXo'), v


def literals(rng, t):
    """A program using literals in every context"""
    sh = bool(t.shells)
    long64 = t.name == 'x86_64'
    vals = DIFFERENT + [rng.getrandbits(rng.randint(1, 31)) for _ in range(25)]
    rng.shuffle(vals)
    g, f, m = [], [], []
    o = 'out'

    def case(decl, fun, call):
        g.append(decl)
        f.append(fun)
        m.append(call)
    arr = []
    for i, v in enumerate(vals[:44]):
        l = spell(rng, v)
        suf = ''
        if not sh and rng.random() < 0.3:
            suf = rng.choice(['u', 'U', 'l', 'L', 'ul', 'UL', 'lu', 'Lu', 'uL'] + (['ll', 'LL', 'ull', 'ULL', 'uLL', 'llu'] if long64 else []))
        n = i
        k = rng.randrange(9)
        neg = rng.choice(['', '-', '-', '~', '- '])
        if neg and 'u' in suf.lower():
            neg = ''
        if k == 0:
            case('', 'int f%d() { return %s%s%s; }\n' % (n, neg, l, suf), 'out(f%d());' % n)
        elif k == 1:
            case('int g%d = %s%s%s;\n' % (n, neg, l, suf), '', 'out(g%d);' % n)
        elif k == 2:
            case('', 'int f%d(int x) { switch (x) { case %s: return 1; case %s: return 2; default: return 3; } }\n' % (
                n, l + suf, spell(rng, v ^ 1)), 'out(f%d(%d)); out(f%d(%d)); out(f%d(%d));' % (n, v, n, v ^ 1, n, v ^ 2))
        elif k == 3 and v < (1 << 31) - 2:
            case('enum { E%dA = %s%s%s, E%dB, E%dC };\n' % (n, neg, l, '' , n, n), '', 'out(E%dA); out(E%dB); out(E%dC);' % (n, n, n))
        elif k == 4:
            case('#if %s == %s && %s == %d%s\n#define D%d 1\n#else\n#define D%d 2\n#endif\n' % (l, spell(rng, v), l + (suf if 'l' not in suf.lower() or True else ''), v, suf, n, n), '', 'out(D%d);' % n)
        elif k == 5 and 0 < v < 5000:
            case('int a%d[%s];\nint b%d = %s;\n' % (n, l, n, l), '', 'a%d[%d] = %d; out(a%d[b%d - 1]); out(b%d);' % (n, v - 1, v * 3, n, n, n))
        elif k == 6:
            arr.append(('' if sh else neg) + l + suf)  # the shell backend rejects other initialisers of array elements
            case('', '', 'out(arr[%d]);' % (len(arr) - 1))
        elif k == 7:
            case('', 'void f%d(int x) { if (x == %s) { out(1); } else { out(2); } if (x > %s) { out(3); } if (x <= %s%s%s) { out(4); } }\n' % (
                n, l, l, neg, l, ''), 'f%d(%d); f%d(%d); f%d(-%d);' % (n, v, n, v - 1, n, v))
        else:
            case('', 'void f%d(int x) { x = x + %s; out(x); x ^= %s%s; out(x); x = %s%s; out(x); }\n' % (n, l, l, suf, neg, l), 'f%d(%d);' % (n, rng.choice([0, -v])))
    if long64:
        for i in range(30):
            v = rng.choice(BIG + UBIG + [rng.getrandbits(rng.randint(32, 64)) for _ in range(10)])
            b = rng.choice('dxo')
            if v >= 1 << 63:
                l = spell(rng, v, 'xo' if b != 'd' else 'd') + rng.choice(['u', 'ull', 'ULL', 'uLL'] if b == 'd' else ['u', 'ull', 'ULL', 'LLu', 'Ull'])
            elif b != 'd' and v < 1 << 32:
                l = spell(rng, v, 'xo') + rng.choice(['u', 'U', 'ull', 'LL'])  # unsuffixed: known finding of C03
            else:
                l = spell(rng, v, 'd' if b == 'd' else 'xo') + rng.choice(['', 'LL', 'll', 'u', 'ull', 'L', 'UL'])
            n = 100 + i
            k = rng.randrange(4)
            if k == 0:
                case('', 'long long f%d() { return %s; }\n' % (n, l), 'outl(f%d());' % n)
            elif k == 1:
                case('long long g%d = %s;\n' % (n, l), '', 'outl(g%d);' % n)
            elif k == 2:
                case('', 'void f%d(unsigned long long x) { out(x == %s); out(x > %s); outl(x - %s); outl(%s / 3); out(-1 < %s); out(%s >> 5); }\n' % (n, l, l, l, l, l, l),
                     'f%d(%dull); f%d(%dull);' % (n, v, n, (v + 1) & 0xffffffffffffffff))
            else:
                case('', 'void f%d(long long x) { switch (x) { case %s: out(1); break; default: out(2); } x = x ^ %s; outl(x); }\n' % (n, l, l), 'f%d(%s); f%d(7);' % (n, l, n))
    a = 'int arr[%d] = {%s};\n' % (len(arr), ', '.join(arr)) if arr else 'int arr[1] = {0};\n'
    pre = cases.SH_PRELUDE if sh else cases.NAT64_PRELUDE if long64 else cases.NAT_PRELUDE
    return pre + ''.join(g) + a + ''.join(f) + 'int main() {\n  ' + '\n  '.join(m) + '\n  return 0;\n}\n'


def constants(rng, t):
    sh = bool(t.shells)
    c = Const(rng, sh)
    g, m = [], []

    def e(d=None):
        for _ in range(50):
            x, v, p = c.expr(rng.randint(1, 4) if d is None else d)
            if abs(v) < 1 << 31:
                return x, v, p
        return '1', 1, 20
    for n in range(40):
        k = rng.randrange(6)
        x, v, p = e()
        if k <= 1:
            y, w, q = e()
            items = ['A%d = %s' % (n, x)]
            names = ['A%d' % n]
            for j in range(rng.randint(0, 3)):
                if v + j + 2 < 1 << 31:
                    items.append('A%d_%d' % (n, j))
                    names.append('A%d_%d' % (n, j))
            items += ['B%d = %s' % (n, y)] + (['C%d' % n] if w + 1 < 1 << 31 else [])
            names += ['B%d' % n] + (['C%d' % n] if w + 1 < 1 << 31 else [])
            tag = rng.choice(['', 'e%d ' % n])
            g.append('enum %s{ %s%s };\n' % (tag, ', '.join(items), rng.choice(['', ','])))
            m += ['out(%s);' % z for z in names]
        elif k == 2:
            for _ in range(20):
                if 0 < v < 3000:
                    break
                x, v, p = e()
            if not 0 < v < 3000:
                continue
            g.append('int a%d[%s]; int z%d = 77;\n' % (n, x, n))
            if not sh:
                m.append('out(sizeof(a%d) / sizeof(a%d[0]));' % (n, n))
            m.append('a%d[%d] = %d; out(a%d[%d]); out(z%d);' % (n, v - 1, n, n, v - 1, n))
        elif k == 3:
            g.append('int g%d = %s;\n' % (n, x))
            m.append('out(g%d);' % n)
        elif k == 4:
            y, w, q = e(1)
            if v == w:
                continue
            g.append('int f%d(int x) { switch (x) { case %s: return 1; case %s: return 2; default: return 3; } }\n' % (n, x, y))
            m.append('out(f%d(%s)); out(f%d(%s)); out(f%d(12345));' % (n, v if v > -(1 << 31) else '-2147483647-1', n, w if w > -(1 << 31) else '-2147483647-1', n))
        else:
            g.append('#if (%s) == %s\n#define D%d 1\n#elif %s\n#define D%d 2\n#else\n#define D%d 3\n#endif\n' % (x, v, n, x, n, n))
            m.append('out(D%d);' % n)
    pre = cases.SH_PRELUDE if sh else cases.NAT_PRELUDE
    return pre + ''.join(g) + 'int main() {\n  ' + '\n  '.join(m) + '\n  return 0;\n}\n'


def check(ck):
    ck.rule = 'distinct generated programs of literals and constant expressions whose traces were compared'
    ck.assumptions = ['gcc -O0 with ASan and UBSan as the reference of C', 'enumeration constants and sizeof are not used in array sizes, enumerators and #if (rejected by pnut)']
    ts = [diff.sh(ck, ['dash']), diff.native(ck, 'x86_64'), diff.native(ck, 'i386'), diff.sh(ck, ['bash', 'ksh', 'yash'], flags=['-DRT_COMPACT'])]

    def one(s):
        rng = random.Random('%d/const/%d' % (ck.seed, s))
        t = ts[s % 4]
        src = (literals if s % 8 < 4 else constants)(rng, t)
        if s in (0, 5):
            ck.sample(src)
        diff.check_source(ck, src, [t], 'literals' if s % 8 < 4 else 'constant expressions')
        ck.count()
        ck.seen(src)
    ck.pmap(one, range(ck.scale(640, 12000)))
