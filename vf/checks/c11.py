"""C11: string and character literals denote the bytes C says."""
import random
from .. import cases, diff, probes, strings

SHOW = '''void show(char *s, int n) {
  int i;
  for (i = 0; i < n; i += 1) { outb(s[i] & 255); }
  putchar('\\n');
}
int len(char *s) { int n = 0; while (s[n] != 0) { n += 1; } return n; }
void raw(char *s, int n) { int i; for (i = 0; i < n; i += 1) { putchar(s[i]); } }
'''


def program(rng, t):
    sh = bool(t.shells)
    hi = 255 if not sh or 'yash' not in t.shells else 127
    lit = lambda b: strings.literal(rng, b)
    g, f, m = [], [], []
    pool = []
    if sh:
        f.append('void outb(int n) { printf("%d ", n); }\n')
    else:
        f.append("void outb(int n) { outn(0 - n); putchar(' '); }\n")
    f.append(SHOW)
    for n in range(24):
        nul = rng.random() < 0.15
        b = strings.data(rng, rng.choice([0, 1, 2, 3, 5, 8, 13, 20, 40, 80, 300 if n % 8 == 0 else 3]), 0 if nul else 1, 127 if rng.random() < 0.6 else hi, nul)
        if pool and rng.random() < 0.25:
            b = rng.choice(pool)
            if rng.random() < 0.5:
                b = b[:rng.randint(0, len(b))]
        pool.append(b)
        L = len(b) + 1
        k = rng.randrange(11)
        if k == 0:
            g.append('char *g%d = %s;\n' % (n, lit(b)))
            m.append('show(g%d, %d);' % (n, L))
        elif k == 1:
            g.append('char g%d[] = %s;\nint z%d = 7;\n' % (n, lit(b), n))
            m.append('show(g%d, %d); g%d[%d] = 65; show(g%d, %d); out(z%d);' % (n, L, n, rng.randrange(L), n, L, n))
        elif k == 2:
            x = L + rng.choice([0, 1, 3, 10])
            g.append('char g%d[%d] = %s;\nint z%d = 7;\n' % (n, x, lit(b), n))
            m.append('show(g%d, %d); out(z%d);' % (n, x, n))
            if not sh:
                m.append('out(sizeof(g%d));' % n)
        elif k == 3:
            f.append('char *f%d() { return %s; }\n' % (n, lit(b)))
            m.append('show(f%d(), %d);' % (n, L))
        elif k == 4:
            m.append('show(%s, %d);' % (lit(b), L))
        elif k == 5:
            c = strings.data(rng, 6, 1, 127)
            f.append('char *f%d(int x) { char *s; if (x) { s = %s; } else { s = %s; } return s; }\n' % (n, lit(b), lit(c)))
            m.append('show(f%d(0), %d); show(f%d(1), %d);' % (n, 7, n, L))
        elif k == 6:
            x = [strings.data(rng, rng.randint(0, 9), 1, 127) for _ in range(rng.randint(1, 5))] + [b]
            rng.shuffle(x)
            g.append('char *g%d[] = {%s};\n' % (n, ', '.join(lit(y) for y in x)))
            m += ['show(g%d[%d], %d);' % (n, i, len(y) + 1) for i, y in enumerate(x)]
        elif k == 7:
            i = rng.randrange(L)
            m.append('out(%s[%d] & 255); out(*%s & 255);' % (strings.literal(rng, b, 1), i, strings.literal(rng, b, 1)) if not sh
                     else 's = %s; out(s[%d] & 255); out(*s & 255);' % (lit(b), i))
        elif k == 8:
            m.append('s = %s; out(len(s)); raw(s, %d);' % (lit(b), L))
        elif k == 9:
            f.append('int f%d(char *s) { char *r = %s; int i = 0; while (r[i] != 0 && r[i] == s[i]) { i += 1; } return i; }\n' % (n, lit(b)))
            m.append('out(f%d(%s)); out(f%d(%s));' % (n, lit(b), n, lit(b[:len(b) // 2])))
        else:
            cs = [rng.choice([rng.randint(0, 127), rng.choice(strings.SPECIAL), rng.choice(b'09azAZ')]) for _ in range(6)]
            if sh:  # the other control characters are rejected
                cs = [c if 32 <= c < 127 or c in strings.ESC or c == 0 else 48 for c in cs]
            q = [strings.charlit(rng, c) for c in cs]
            m.append(' '.join('out(%s);' % x for x in q))
            m.append('putchar(%s); putchar(%s);' % (q[0], q[1]))
            f.append('int f%d(int c) { switch (c) { case %s: return 1; default: break; } if (c == %s) { return 2; } if (c >= %s && c < %s + 3) { return 3; } return 0; }\n' % (n, q[0], q[1], q[2], q[2]))
            m.append(' '.join('out(f%d(%s));' % (n, x) for x in q[:4]) + ' out(f%d(%d));' % (n, cs[1]))
            g.append('int g%d = %s;\nint h%d[3] = {%s, %s, %s};\nenum { E%d = %s };\n' % (n, q[3], n, q[4], q[5], q[0], n, q[5]))
            m.append('out(g%d); out(h%d[0]); out(h%d[1]); out(h%d[2]); out(E%d);' % (n, n, n, n, n))
    pre = cases.SH_PRELUDE if sh else cases.NAT_PRELUDE
    return pre + ''.join(f[:2]) + ''.join(g) + ''.join(f[2:]) + 'int main() {\n  char *s;\n  ' + '\n  '.join(m) + '\n  return 0;\n}\n'


def check(ck):
    ck.rule = 'distinct generated programs of string and character literals whose traces were compared'
    ck.assumptions = ['gcc -O0 with ASan and UBSan as the reference of C', 'bytes above 127 are not used under yash, and control characters without an escape are not used in character constants of scripts (known findings)']
    ts = [diff.sh(ck, ['dash', 'bash', 'ksh']), diff.native(ck, 'x86_64'), diff.native(ck, 'i386'), diff.sh(ck, ['mksh', 'zsh', 'yash'], flags=['-DRT_COMPACT'])]

    def one(s):
        rng = random.Random('%d/string/%d' % (ck.seed, s))
        t = ts[s % 4]
        src = program(rng, t)
        if s in (0, 1):
            ck.sample(src)
        diff.check_source(ck, src, [t], 'literals')
        ck.count()
        ck.seen(src)
    ck.pmap(one, range(ck.scale(400, 12000)))
    probes.run(ck)
