"""C12: formatted output of scripts."""
import random
import re
from .. import diff, probes, strings

NUMS = [0, 1, 2, 5, 7, 9, 10, 42, 63, 64, 99, 100, 255, 256, 1000, 12345, 99999, 1000000, 123456789, 2147483647]


def spec(rng, c, rt):
    """flags, width and precision of a conversion; returns (text, list of * arguments)"""
    fl = ''
    stars = []
    if c == 'c':
        if rt and rng.random() < 0.5:
            return rng.choice(['', '-']) + str(rng.randint(1, 9)), []
        return '', []
    if rng.random() < 0.5:
        for f in '-+ #0':
            if rng.random() < 0.25:
                if f == '#' and c not in 'oxX':
                    continue
                if f == '0' and c == 's':
                    continue
                if f in '+ ' and c not in 'di':
                    continue
                if f == ' ' and '+' in fl or f == '0' and '-' in fl:
                    continue
                fl += f
    k = rng.random()
    w = p = ''
    if k < 0.4:
        w = str(rng.choice([1, 2, 3, 5, 8, 10, 12, 20]))
    elif k < 0.5:
        w = '*'
        stars.append(rng.choice([1, 4, 9, 15]))
    if rng.random() < 0.3:
        if rng.random() < 0.7:
            p = '.' + str(rng.choice([0, 1, 2, 3, 5, 8, 10]))
        else:
            p = '.*'
            stars.append(rng.choice([0, 1, 3, 7]))
        fl = fl.replace('0', '')
    if '#' in fl and c == 'o' and p:
        p = ''
        stars = stars[:1] if w == '*' else []
    if '0' in fl and not w:
        fl = fl.replace('0', '')
    if '#' in fl and '0' in fl:
        fl = fl.replace('#', '')  # ksh pads one or two characters too much
    if p == '.0' and c in 'xX':
        p = '.1'  # zsh reads 0x as a base
    return fl + w + p, stars


def text(rng, n):
    b = strings.data(rng, rng.randint(0, n), 1, 127)
    return b.replace(b'%', b'%%')


def call(rng, rt, star, i):
    """One printf call: (declarations, statement)"""
    b, args, pre, parts = b'', [], [], []
    for _ in range(rng.randint(0, 5)):
        b += text(rng, rng.choice([0, 1, 3, 8]))
        c = rng.choice('dddiiouxXccss')
        s, stars = spec(rng, c, rt)
        while stars and not star and not rt:  # known finding of yash
            s, stars = spec(rng, c, rt)
        hs = '#' in s
        if c != 's' and c != 'c' and not rt and rng.random() < 0.1 and not stars:
            parts.append(b + b'%' + s.encode())
            s = b = ''.encode()
            parts.append(rng.choice(['L', 'L L']))
            b = c.encode()
        else:
            b += b'%' + s.encode() + c.encode()
        for v in stars:
            args.append(rng.choice(['%d' % v, 'id(%d)' % v]))
        if c in 'di':
            v = rng.choice(NUMS) * rng.choice([1, 1, -1])
        elif c == 'c':
            v = rng.choice([0, 9, 10, 13, 27, 32, 34, 36, 37, 39, 45, 48, 65, 92, 96, 97, 126, 127, 128, 200, 255])
        elif c != 's':
            v = rng.choice(NUMS)
            if hs:
                v = v or 3  # ksh prints 0x0
        if c == 's':
            x = strings.data(rng, rng.randint(0, 12), 1, 127)
            if rt or s:
                x = x.rstrip(b'\n')  # known finding
            a = strings.literal(rng, x)
            if rng.random() < 0.4:
                pre.append('char *s%d_%d = %s;' % (i, len(args), a))
                a = 's%d_%d' % (i, len(args))
            elif rng.random() < 0.2:
                a = 'ids(%s)' % a
            elif rng.random() < 0.2:
                a = '%s + 1' % strings.literal(rng, b'x' + x, 1)
                pre.append('char *t%d_%d = %s;' % (i, len(args), a[:-4]))
                a = 't%d_%d + 1' % (i, len(args))
            args.append(a)
        else:
            k = rng.random()
            if c == 'c' and k < 0.3 and (32 <= v < 127 or v in strings.ESC):
                a = strings.charlit(rng, v)
            elif k < 0.5:
                a = '%d' % v
            elif k < 0.7:
                a = 'id(%d)' % v
            elif k < 0.85:
                a = '(g = %d)' % v if 'g' not in ''.join(args) else '%d' % v
            else:
                a = '%d + %d' % (v - 5, 5) if v > 5 else '%d - 5' % (v + 5)
            args.append(a)
    b += text(rng, 6)
    if rng.random() < 0.5:
        b += b'\n'
    # a format the compiler would see as a trailing % is never built: text doubles them
    if rt:
        pre.append('char *f%d = %s;' % (i, strings.literal(rng, b)))  # no L
        return pre, 'printf(%s);' % ', '.join(['f%d' % i] + args)
    f = ' '.join(x if isinstance(x, str) else strings.literal(rng, x) for x in parts + [b])
    return pre, 'printf(%s);' % ', '.join([f] + args)


# known finding of mksh
EXCESS = re.compile(rb"printf: warning: ignoring excess arguments, starting with .*", re.S)


def program(rng, rt, star=True):
    decls, body = [], []
    for i in range(rng.randint(6, 18)):
        k = rng.random()
        r = rt == 2 or bool(rt) and rng.random() < 0.6
        d, s = call(rng, r, star, i)
        decls += d
        if k < 0.15:
            v = rng.randint(0, 255)
            s = rng.choice(['putchar(%d);' % v, 'putchar(id(%d));' % v, 'g = %d; putchar(g);' % v, 'g = %d; putchar(g - %d);' % (v + 3, 3), "putchar(%s);" % strings.charlit(rng, rng.choice(strings.SPECIAL + b'aZ09'))])
        elif k < 0.2:
            s = 'g = printf("%s") * 0;' % 'abc' if False else s
        elif k < 0.3:
            s = 'if (id(%d)) { %s }' % (rng.randint(0, 1), s)
        elif k < 0.36:
            s = 'for (i = 0; i < 3; i += 1) { %s }' % s
        elif k < 0.4:
            s = 'show(%s);' % strings.literal(rng, text(rng, 12).rstrip(b'\n'))
        body.append(s)
    return ('#include <stdio.h>\n#include <stdlib.h>\n#ifndef L\n#define L "l"\n#endif\nint g;\nint id(int x) { return x; }\nchar *ids(char *s) { return s; }\n'
            'void show(char *s) { printf("[%s]", s); }\n'
            'int main() {\n  int i;\n  ' + '\n  '.join(decls + body) + '\n  return 0;\n}\n')


def check(ck):
    ck.rule = 'distinct generated programs of printf and putchar calls whose output was compared'
    ck.assumptions = ['glibc printf as the reference', '%o, %u and %x are used on non-negative values (the ints of scripts are wider)',
                      'strings printed through the shell printf with a width, or by the run time printf, do not end with a newline (known finding)']
    all_ = diff.core.SHELLS
    t1 = [diff.sh(ck, [s]) for s in all_]
    t2 = [diff.sh(ck, [s], flags=['-DSH_AVOID_PRINTF_USE_NOT', '-DRT_COMPACT']) for s in all_]

    for t in t1 + t2:
        t.ignore_err = EXCESS

    def one(s):
        rng = random.Random('%d/printf/%d' % (ck.seed, s))
        t = t2 if s % 7 == 5 else t1
        # two shells per program
        a = t[s % 6]
        b = t[(s // 6 + s + 1) % 6]
        src = program(rng, 2 if t is t2 else s % 3 != 0, 'yash' not in a.shells + b.shells)  # known finding
        if s < 2:
            ck.sample(src)
        diff.check_source(ck, src, [a] if a is b else [a, b], 'printf', ref_flags=['-DL=""'])
        ck.count()
        ck.seen(src)
    ck.pmap(one, range(ck.scale(700, 12000)))
    probes.run(ck)
