"""Rewrites a program with conditional groups, included files and command line macros.  The original
program is by construction what the preprocessor must produce."""
import os
from .macros import tokens, IDENT


def c_div(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class Cond:
    """Expressions of #if with their value"""

    def __init__(self, rng, macros, undef, funs):
        self.rng, self.macros, self.undef, self.funs = rng, macros, undef, funs

    def leaf(self):
        r = self.rng
        k = r.random()
        ints = [(n, v) for n, v in self.macros.items() if isinstance(v, int)]
        if k < 0.3 and ints:
            return r.choice(ints)
        if k < 0.5:
            names = list(self.macros) + list(self.undef)
            n = r.choice(names)
            return r.choice(['defined %s', 'defined(%s)', 'defined ( %s )'] if r.random() < 0.8 else ['defined/**/(%s)']) % n, int(n in self.macros)
        if k < 0.56 and self.undef:
            return r.choice(list(self.undef)), 0
        if k < 0.6:
            c = r.choice("aZ0 ~")
            return "'%s'" % c, ord(c)
        if k < 0.63:
            return r.choice([("'\\n'", 10), ("'\\0'", 0), ("'\\\\'", 92)])
        if k < 0.7 and self.funs:
            n, (k1, k2) = r.choice(list(self.funs.items()))
            a = r.randint(-9, 20)
            return '%s(%s)' % (n, a if a >= 0 else '%d' % a), k1 * a + k2
        v = r.choice([0, 1, 2, 3, 7, 10, 100, 255, 1000, 65536, 0x7fffffff, r.randint(0, 50)])
        return r.choice(['%d', '%d', '0x%x', '0X%X'] + (['0%o'] if v else [])) % v, v

    def expr(self, d):
        """(text, value, precedence)"""
        r = self.rng
        if d <= 0 or r.random() < 0.12:
            t, v = self.leaf()
            return t, v, 20
        k = r.random()
        if k < 0.18:
            o = r.choice('!!-~+')
            t, v, p = self.expr(d - 1)
            if p < 14 or t[0] in '+-':
                t = '(%s)' % t
            v = {'!': int(not v), '-': -v, '~': ~v, '+': v}[o]
            return self.fit(o + t, v, 14)
        if k < 0.25:
            a, b, c = self.expr(d - 1), self.expr(d - 1), self.expr(d - 1)
            if a[2] <= 2:
                a = ('(%s)' % a[0], a[1], 20)
            if c[2] < 2:
                c = ('(%s)' % c[0], c[1], 20)
            return '%s ? %s : %s' % (a[0], b[0], c[0]), (b if a[1] else c)[1], 2
        o, p = r.choice([('*', 13), ('/', 13), ('%', 13), ('+', 12), ('-', 12), ('<<', 11), ('>>', 11), ('<', 10), ('<=', 10), ('>', 10), ('>=', 10),
                         ('==', 9), ('!=', 9), ('&', 8), ('^', 7), ('|', 6), ('&&', 5), ('||', 4), ('&&', 5), ('||', 4), ('==', 9)])
        a, b = self.expr(d - 1), self.expr(d - 1)
        if o in ('>>', '/', '%', '<', '>') and r.random() < 0.4:
            # operators that depend on the sign of their operands
            if a[1] > 0:
                a = self.fit('-(%s)' % a[0] if a[2] < 20 else '-' + a[0], -a[1], 14)
            elif o != '>>' and b[1] > 0:
                b = self.fit('-(%s)' % b[0] if b[2] < 20 else '-' + b[0], -b[1], 14)
        x, y = a[1], b[1]
        ta = a[0] if a[2] >= p or r.random() < 0 else '(%s)' % a[0]
        tb = b[0] if b[2] > p else '(%s)' % b[0]
        if o in '/%' and y == 0:
            if r.random() < 0.5:
                # not evaluated
                return r.choice([('0 && (1 %s %s)' % (o, tb), 0, 5), ('1 || 1 %s %s' % (o, tb), 1, 4), ('1 ? 5 : 1 %s %s' % (o, tb), 5, 2)])
            tb, y = '3', 3
        if o in ('<<', '>>'):
            y = y % (r.choice([3, 8, 31]) if o == '>>' else 8)
            tb = str(y)
            if x < 0 and o == '<<':
                ta, x = '5', 5
        v = {'*': lambda: x * y, '/': lambda: c_div(x, y), '%': lambda: x - y * c_div(x, y), '+': lambda: x + y, '-': lambda: x - y, '<<': lambda: x << y, '>>': lambda: x >> y,
             '<': lambda: int(x < y), '<=': lambda: int(x <= y), '>': lambda: int(x > y), '>=': lambda: int(x >= y), '==': lambda: int(x == y), '!=': lambda: int(x != y),
             '&': lambda: x & y, '^': lambda: x ^ y, '|': lambda: x | y, '&&': lambda: int(bool(x and y)), '||': lambda: int(bool(x or y))}[o]()
        s = r.choice(['%s %s %s'] * 3 + ['%s%s%s', '%s  %s /* c */ %s'])
        if s == '%s%s%s' and (tb[0] in '+-&' or tb[0] == ta[-1] or o == '/'):
            s = '%s %s %s'
        return self.fit(s % (ta, o, tb), v, p)

    def fit(self, t, v, p):
        if -(1 << 31) < v < (1 << 31):
            return t, v, p
        return '(%s) != 0' % t if False else '7', 7, 20

    def cond(self, want):
        """text of a condition that is true or false"""
        for _ in range(60):
            t, v, p = self.expr(self.rng.randint(0, 4))
            if bool(v) == want:
                return t
        return '1' if want else '0'


class Grouper:
    def __init__(self, rng, src, cmdline, multi):
        self.rng = rng
        self.files = {}
        self.n = 0
        self.stats = {}
        lines = src.split('\n')
        self.head = []
        while lines and (lines[0].startswith('#include') or not lines[0].strip()):
            self.head.append(lines.pop(0))
        self.lines = lines
        self.used = {t for l in lines for t in tokens(l) if IDENT.match(t)}
        self.macros = dict(cmdline)
        self.undef = ['UNDEF_A', 'NOT_DEFINED', 'U3']
        self.funs = {}
        self.multi = multi
        self.incdirs = ['']

    def note(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def cond(self, want):
        return Cond(self.rng, self.macros, self.undef, self.funs).cond(want)

    def hash(self, s):
        r = self.rng
        return r.choice(['#%s'] * 8 + ['# %s', '  #%s', '\t# %s', '/* c */ #%s' if False else '#%s', '#  %s', '#/**/%s']) % s + (r.choice([' ', '\t', ' // c', ' /* c */', '/**/', '  /* #else\n #if */ ', '//', ' \\\n ']) if r.random() < 0.15 and '//' not in s else '')

    def state(self):
        """Definitions changing the state of the macros"""
        r = self.rng
        k = r.random()
        if k < 0.5:
            n = r.choice(['FLAG', 'VERSION_', 'A_B', 'X1', 'CONFIG', 'DEBUG', 'Y'] + self.undef)
            if n in self.used:
                return []
            L = []
            if n in self.macros:
                L.append(self.hash('undef ' + n))
            if n in self.undef:
                self.undef.remove(n)
            if r.random() < 0.3:
                self.macros[n] = None
                L.append(self.hash('define ' + n))
            else:
                v = r.choice([0, 1, 2, 3, 10, 199901, r.randint(0, 99)])
                self.macros[n] = v
                t = str(v)
                ints = [x for x, w in self.macros.items() if isinstance(w, int) and x != n]
                if r.random() < 0.2 and ints:
                    x = r.choice(ints)
                    # the value is that of x when it is used: keep x constant until then
                    if r.random() < 0.5:
                        t = '( %d )' % v
                elif r.random() < 0.2:
                    t = '(%d + %d)' % (v - 1, 1) if v else '(1-1)'
                L.append(self.hash('define %s %s' % (n, t)))
            self.note('definition')
            return L
        if k < 0.75:
            c = [x for x in self.macros if not x.startswith('GUARD_')]
            if not c:
                return []
            n = r.choice(c)
            del self.macros[n]
            if n not in self.undef:
                self.undef.append(n)
            self.note('undefinition')
            return [self.hash('undef ' + n)]
        if k < 0.9:
            n = r.choice(['F1', 'SCALE', 'VER'])
            if n in self.used or n in self.funs:
                return []
            k1, k2 = r.randint(-3, 5), r.randint(-5, 9)
            self.funs[n] = (k1, k2)
            return [self.hash('define %s(x) (%d * (x) + %d)' % (n, k1, k2))]
        return [self.hash('undef ' + r.choice(self.undef))] if self.undef else []

    def junk(self, depth):
        """Lines of a skipped group"""
        r = self.rng
        L = []
        for _ in range(r.randint(0, 4)):
            k = r.random()
            names = list(self.macros) + self.undef + ['out', 'int']
            if k < 0.35:
                L.append(r.choice(self.lines))
                if L[-1].startswith('#'):
                    L.pop()
            elif k < 0.5:
                L.append(self.hash('define %s %s' % (r.choice(names), r.choice(['', 'wrong', '(', '99']))))
            elif k < 0.6:
                L.append(self.hash('undef ' + r.choice(names)))
            elif k < 0.68:
                L.append(self.hash(r.choice(['include "missing.h"', 'error stop', 'warning w', 'pragma once', 'foo bar', 'error', 'include MACRO', 'line 7'])))
            elif k < 0.78:
                L.append(r.choice(['this is { not [ a ( program', '} } ) ] ;', 'int int return "s" + ;', "'x' 0x1F 077 /* c */", '// comment # else', '/* #endif', '1 + + 2 -> . ? :', 'user@host $x `cmd` \\ @', '1.5e3 .5 0x 09 ## @ .. 3..4', 'char *s = "\\?\\e\\x";']))
                if L[-1] == '/* #endif':
                    L.append('#else */')
            elif depth > 0:
                L += self.skipped(depth - 1)
        return L

    def skipped(self, depth):
        """A nested conditional in a skipped group: nothing in it is evaluated"""
        r = self.rng
        c = r.choice(['if 1', 'if 0', 'ifdef int', 'ifndef NOT_DEFINED', 'if defined', 'if ( 1', 'if 1 / 0', 'if', 'ifdef NOT_DEFINED', 'if garbage in +'])
        L = [self.hash(c)] + self.junk(depth)
        for _ in range(r.choice([0, 0, 1, 2])):
            L += [self.hash(r.choice(['elif 1', 'elif 0', 'elif', 'elif defined', 'elif 1 +']))] + self.junk(depth)
        if r.random() < 0.5:
            L += [self.hash('else')] + self.junk(depth)
        L.append(self.hash('endif'))
        return L

    def group(self, L, depth):
        """A conditional whose selected group is L (already rewritten by the function L, called at the right time), or nothing"""
        r = self.rng
        self.note('conditional')
        out = []
        sel = r.choice([0, 0, 0, 1, 1, 2, 'else', 'else'])  # index of the selected group
        if L is None:
            L = lambda: []
            if r.random() < 0.6:
                sel = None
        first = True
        i = 0
        n = r.randint(0, 3) if not isinstance(sel, int) else sel + 1 + r.choice([0, 0, 1, 2])
        n = max(n, 1)
        done = False
        for i in range(n):
            if not done:
                want = sel == i
                k = r.random()
                if i == 0 and k < 0.35:
                    defs, und = list(self.macros) + list(self.funs), self.undef
                    if want and (k < 0.2 and defs or not und):
                        c = 'ifdef ' + r.choice(defs) if defs else 'if 1'
                    elif want:
                        c = 'ifndef ' + r.choice(und)
                    elif k < 0.2 and und or not defs:
                        c = 'ifdef ' + r.choice(und) if und else 'if 0'
                    else:
                        c = 'ifndef ' + r.choice(defs)
                else:
                    c = ('if ' if i == 0 else 'elif ') + self.cond(want)
                self.note(c.split()[0] + (' taken' if want else ' not taken'))
                if r.random() < 0.05:
                    c += r.choice([' // c', ' /* c */'])
                out.append(self.hash(c))
                if want:
                    out += L()
                    done = True
                else:
                    out += self.junk(2)
            else:
                out.append(self.hash(r.choice(['elif 1', 'elif 0', 'elif ' + self.cond(True), 'elif defined', 'elif 1 / 0', 'elif garbage +'])))
                self.note('elif after the selected group')
                out += self.junk(2)
        if sel == 'else':
            out.append(self.hash('else'))
            self.note('else taken')
            out += L()
        elif done and r.random() < 0.4:
            out.append(self.hash('else'))
            self.note('else not taken')
            out += self.junk(2)
        out.append(self.hash('endif') + r.choice(['', '', ' /* c */', ' // c']))
        return out

    def include(self, L, depth, cur):
        """Moves lines to a file included from a file of directory cur"""
        r = self.rng
        self.n += 1
        sub = r.choice(['', 'a/', 'a/b/', '../' if cur.count('/') else '', 'sys/'])
        d = os.path.normpath(os.path.join(cur or '.', sub or '.'))
        d = '' if d == '.' else d + '/'
        name = 'inc%d.%s' % (self.n, r.choice(['h', 'c', 'inc']))
        out = []
        angle = r.random() < 0.25
        if angle:
            d, target = 'search/', name
            if r.random() < 0.5:
                d, target = 'search/deep/', 'deep/' + name
            text = '<%s>' % target
            self.note('include <>')
        else:
            text = '"%s%s"' % (sub, name)
            self.note('include "" in %s' % (sub or 'the same directory'))
        out.append(self.hash('include ' + text))
        guard = r.random() < 0.4
        c = []
        if guard:
            g = 'GUARD_%d' % self.n
            self.macros[g] = None
            c += ['#ifndef ' + g, '#define ' + g]
        c += self.rewrite(L, depth - 1, d)
        if guard:
            c += ['#endif']
        body = '\n'.join(c)
        if r.random() < 0.7:
            body += '\n'
        else:
            self.note('no newline at the end of the file')
        self.files[d + name] = body
        if guard and r.random() < 0.6:
            self.note('file included twice')
            out.append(self.hash('include ' + text))
        return out

    def rewrite(self, L, depth, cur):
        r = self.rng
        out = []
        i = 0
        while i < len(L):
            if r.random() < 0.12:
                out += self.state()
            if r.random() < 0.06:
                out += self.group(None, depth)
            k = min(len(L) - i, r.choice([1, 1, 2, 3, 5, 8, 15, 30]))
            S = L[i:i + k]
            i += k
            if depth > 0 and r.random() < 0.4:
                if r.random() < 0.65:
                    out += self.group(lambda: self.rewrite(S, depth - 1, cur), depth)
                else:
                    out += self.include(S, depth, cur)
            else:
                out += S
        return out

    def run(self, depth):
        return '\n'.join(self.head + self.rewrite(self.lines, depth, '')) + '\n'
