"""Rewrites a program into an equivalent one that uses the preprocessor: tokens are folded
into macros, lines into conditional groups and included files.  The original program is by
construction what the preprocessor must produce."""
import re

TOK = re.compile(r'''\s+|/\*.*?\*/|//[^\n]*|[A-Za-z_]\w*|0[xX][0-9a-fA-F]+[uUlL]*|\d+[uUlL]*|'(?:\\.[0-7]*|[^\\'])'|"(?:\\.|[^"\\])*"|<<=|>>=|\.\.\.|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|\#\#|.''', re.S)
IDENT = re.compile(r'[A-Za-z_]\w*\Z')
NUM = re.compile(r'(0|[1-9]\d*)\Z')
KEYWORDS = set('auto break case char const continue default do double else enum extern float for goto if inline int long register return short signed sizeof static struct switch typedef union unsigned void volatile while'.split())


def tokens(src):
    return [t for t in TOK.findall(src) if not (t.isspace() or t.startswith('/*') or t.startswith('//'))]


def joinable(a, b):
    """Can b follow a without white space?"""
    return tokens(a + b) == [a, b] and not ((a[-1].isalnum() or a[-1] == '_') and (b[0].isalnum() or b[0] == '_')) and not (a[-1].isalnum() and b[0] in '."\'') and a + b[0] not in ('/*', '//', '/')


class Gap:
    """How tokens are separated"""

    def __init__(self, rng, lines=True, comments=True):
        self.rng, self.lines, self.comments = rng, lines, comments

    def between(self, a, b, directive=False):
        r = self.rng.random()
        if r < 0.25 and joinable(a, b):
            return ''
        if self.comments and r > 0.97:
            return self.rng.choice([' /* c */ ', ' /**/', ' /* a * b / c */', ' /***/ ', ' /* M1( */ '])
        if directive:
            return ' ' if r < 0.93 or not self.lines else self.rng.choice([' \\\n', '\\\n  ', '\t'])
        if self.lines and r > 0.94:
            return self.rng.choice(['\n', '\n   ', ' // c, M2(\n', '\n\n', '\t'])
        return ' '

    def render(self, toks, directive=False):
        out = []
        prev = None
        for t in toks:
            if prev is not None:
                out.append(self.between(prev, t, directive))
            out.append(t)
            prev = t
        return ''.join(out)


class Folder:
    def __init__(self, rng, names_used, features=None):
        self.rng = rng
        self.used = set(names_used) | KEYWORDS
        self.n = 0
        self.free = []
        self.defs = []
        self.gap = Gap(rng, lines=False)
        self.dgap = Gap(rng)
        self.stats = {}
        self.leaf = {}

    def note(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def fresh(self, like=None):
        r = self.rng
        if self.free and r.random() < 0.7:
            self.note('redefinition of an undefined macro')
            return self.free.pop(r.randrange(len(self.free)))
        while 1:
            self.n += 1
            n = r.choice(['M%d', 'macro_%d', 'm%dx', 'FOO_%d', 'q%d', '_Z%d', 'MM%d_A']) % self.n
            if n not in self.used:
                self.used.add(n)
                return n

    def define(self, name, params, body):
        head = '#define ' if self.rng.random() < 0.9 else self.rng.choice(['# define ', '#  define  ', '#define\t', '#define /* c */ '])
        s = head + name
        if params is not None:
            s += '(' + self.rng.choice([', ', ',', ' , ']).join(params) + ')'
            if body and self.rng.random() < 0.9 or body and not joinable(')', body[0]):
                s += ' '
        elif body:
            s += ' '
        s += self.gap.render(body) if self.rng.random() < 0.8 else self.dgap.render(body, True)
        if self.rng.random() < 0.05:
            s += self.rng.choice([' // c', ' /* c */', '  ', '\t'])
        self.defs.append((name, s))

    def subrange(self, n, lo, hi):
        k = min(n, self.rng.randint(lo, hi))
        a = self.rng.randint(0, n - k)
        return a, a + k

    def balanced(self, T):
        """The range of a parenthesised part of T, or of a call"""
        st, rs = [], []
        for i, t in enumerate(T):
            if t == '(':
                st.append(i)
            elif t == ')' and st:
                rs.append((st.pop(), i + 1))
        if not rs:
            return None
        a, b = self.rng.choice(rs)
        if a and IDENT.match(T[a - 1]):
            a -= 1
        return a, b

    def ignored(self):
        """An argument that is not used by the macro"""
        r = self.rng
        k = r.random()
        if k < 0.4:
            return r.choice(['1', 'unused', '( a , b )', '"s"', '+', '; }', 'x = { 1 ; }', '[ 3 ]', '0x1F', "')'", '"("', '"),"', "','", '( "(" )', '" ( "'])
        n = r.randint(1, 20)
        s = '( ' * n + r.choice(['a', 'a , b', '1 , ( 2 ) , 3']) + ' )' * n
        if k < 0.6:
            s = 'f ' + s + ' + g ( ( 1 ) , ( 2 ) )'
        return s

    def argsafe(self, T):
        d = 0
        for t in T:
            if t == '(':
                d += 1
            elif t == ')':
                d -= 1
                if d < 0:
                    return False
            elif t == ',' and d == 0:
                return False
        return d == 0

    def fold(self, T, depth, hasparams=False):
        """Returns tokens expanding to T; the definitions go to self.defs"""
        r = self.rng
        if depth <= 0 or not T and r.random() < 0.5:
            return list(T)
        k = r.random()
        if k < 0.12 and len(T) > 1:
            # fold two halves separately
            m = r.randint(1, len(T) - 1)
            return self.fold(T[:m], depth, hasparams) + self.fold(T[m:], depth, hasparams)
        if k < 0.32 and not hasparams:
            a, b = (0, len(T)) if r.random() < 0.6 or not T else self.subrange(len(T), 1, len(T))
            name = self.objmacro(T[a:b], depth)
            return list(T[:a]) + [name] + list(T[b:])
        if k < 0.36:
            self.note('empty macro')
            name = self.fresh()
            m = r.randint(0, len(T))
            if r.random() < 0.5:
                self.define(name, None, [])
                return list(T[:m]) + [name] + list(T[m:])
            self.define(name, ['x'], [])
            return list(T[:m]) + [name, '(', self.ignored(), ')'] + list(T[m:])
        return self.funmacro(T, depth, hasparams)

    def objmacro(self, T, depth):
        name = self.fresh()
        self.note('object-like macro')
        if len(T) == 1 and IDENT.match(T[0]) and self.rng.random() < 0.1:
            self.note('chain')
        self.define(name, None, self.fold(T, depth - 1))
        return name

    def split_ident(self, t):
        """pieces (a, b) with a ## b == t, or None"""
        r = self.rng
        if NUM.match(t) and len(t) > 1 and len(t) < 9:
            i = r.randint(1, len(t) - 1)
            a, b = t[:i], t[i:]
            if b != '0' * len(b) and b[0] == '0':
                return None
            if len(b) > 1 and b[0] == '0':
                return None
            return a, b
        if IDENT.match(t) and len(t) > 1 and t != 'defined':
            i = r.randint(1, len(t) - 1)
            a, b = t[:i], t[i:]
            if b[0].isdigit() and not NUM.match(b):
                return None
            if len(b) > 8 and b[0].isdigit():
                return None
            if IDENT.match(b) or NUM.match(b):
                return a, b
        return None

    def funmacro(self, T, depth, hasparams):
        r = self.rng
        self.note('function-like macro')
        params, args = [], []
        body = list(T)
        pnames = r.sample(['a', 'b', 'c', 'x', 'y', 'z', 'X', 'Y', 'arg', 'int_', 'T', 'e1'], 5)
        pnames = [p for p in pnames if p not in T]
        isparam = set()
        for _ in range(r.randint(0, 3)):
            if not pnames:
                break
            p = pnames.pop()
            if r.random() < 0.08:
                params.append(p)
                args.append([])
                self.note('empty argument')
                m = r.randint(0, len(body))
                if m and body[m - 1] == '##' or m < len(body) and body[m] == '##':
                    params.pop()
                    args.pop()
                    continue
                body.insert(m, p)
                isparam.add(p)
                continue
            if r.random() < 0.06:
                # an unused parameter
                params.append(p)
                args.append([self.ignored()])
                self.note('unused parameter')
                continue
            for _ in range(6):
                if not body:
                    break
                a, b = self.subrange(len(body), 1, r.choice([1, 1, 3, 8]))
                if r.random() < 0.25:
                    a, b = self.balanced(body) or (a, b)
                S = body[a:b]
                if any(t in isparam or t in ('##', '#') for t in S) or not self.argsafe(S) or a and body[a - 1] in ('##', '#') or b < len(body) and body[b] in ('##',):
                    continue
                if len(S) == 1 and r.random() < 0.35:
                    sp = self.split_ident(S[0])
                    if sp and (set(sp) & (isparam | set(pnames) | set(params) | {p})):
                        continue
                    if sp:
                        if self.paste(body, a, sp, p, pnames, params, args, isparam):
                            break
                        continue
                if len(S) == 1 and S[0][0] == '"' and IDENT.match(S[0][1:-1]):
                    self.note('stringizing')
                    body[a:b] = ['#', p]
                    params.append(p)
                    args.append([S[0][1:-1]])
                    isparam.add(p)
                    break
                # replace every occurrence
                params.append(p)
                isparam.add(p)
                i, nb, cnt = 0, [], 0
                while i < len(body):
                    if body[i:i + len(S)] == S and (i == a or r.random() < 0.8) and not (i and body[i - 1] in ('##', '#')) and not (i + len(S) < len(body) and body[i + len(S)] == '##') \
                            and not (cnt == 0 and i < a < i + len(S)):
                        nb.append(p)
                        i += len(S)
                        cnt += 1
                    else:
                        nb.append(body[i])
                        i += 1
                if cnt > 1:
                    self.note('parameter used several times')
                body = nb
                args.append(self.fold(S, depth - 1, hasparams) if r.random() < 0.4 else S)
                break
        name = self.fresh()
        # fold the body, where the parameters are opaque
        if r.random() < 0.5 and body:
            for _ in range(1):
                a, b = self.subrange(len(body), 1, 8)
                S = body[a:b]
                if a and body[a - 1] in ('##', '#') or b < len(body) and body[b] == '##' or '##' in S or '#' in S:
                    continue
                if any(t in isparam for t in S):
                    if not self.argsafe(S):
                        continue
                    self.note('parameters passed to a nested macro')
                    body[a:b] = self.opaque(S, isparam, depth - 1)
                else:
                    body[a:b] = self.fold(S, depth - 1)
        o = list(range(len(params)))
        r.shuffle(o)
        params, args = [params[i] for i in o], [args[i] for i in o]
        if not params and r.random() < 0.7:
            # something must be passed, or this is a macro without parameters
            params, args = [r.choice(['w', 'v0'])], [['0']]
            if params[0] in body:
                params = ['w_w']
        self.define(name, params, body)
        use = [name, '(']
        if r.random() < 0.06:
            self.note('function-like macro called through another macro')
            n2 = self.fresh()
            self.define(n2, None, [name])
            use[0] = n2
        for i, a in enumerate(args):
            if i:
                use.append(',')
            use += a
        return use + [')']

    def opaque(self, S, isparam, depth):
        """fold S, which contains parameters, with a function-like macro whose arguments contain them"""
        r = self.rng
        params, args, body = [], [], []
        m = {}
        pn = ['p1', 'p2', 'p3', 'p4', 'p5', 'p6', 'p7', 'p8']
        pn = [p for p in pn if p not in S]
        r.shuffle(pn)
        for t in S:
            if t in isparam:
                if t not in m or r.random() < 0.3 and pn:
                    if not pn:
                        return S
                    m[t] = pn.pop()
                    params.append(m[t])
                    args.append([t])
                body.append(m[t])
            else:
                body.append(t)
        name = self.fresh()
        self.define(name, params, body)
        use = [name, '(']
        for i, a in enumerate(args):
            if i:
                use.append(',')
            use += a
        return use + [')']

    def paste(self, body, i, sp, p, pnames, params, args, isparam):
        r = self.rng
        a, b = sp
        k = r.randrange(4)
        self.note('pasting %s %s' % ('number' if a[0].isdigit() else 'identifier', 'number' if b[0].isdigit() else 'identifier'))
        if k == 0:
            body[i:i + 1] = [p, '##', b]
            params.append(p)
            args.append([a])
            isparam.add(p)
        elif k == 1:
            if a == p:
                return False
            body[i:i + 1] = [a, '##', p]
            params.append(p)
            args.append([b])
            isparam.add(p)
        elif k == 2 and pnames:
            q = pnames.pop()
            body[i:i + 1] = [p, '##', q]
            params += [p, q]
            args += [[a], [b]]
            isparam.add(p)
            isparam.add(q)
        else:
            if not pnames:
                return False
            q = pnames.pop()
            params += [p, q]
            t = a + b
            if r.random() < 0.5:
                body[i:i + 1] = [p, '##', q]
                args += [[t], []] if not NUM.match(t) or r.random() < 0.5 else [[], [t]]
            else:
                body[i:i + 1] = [p, '##', q]
                args += [[], [t]]
            isparam.add(p)
            isparam.add(q)
            self.note('pasting with an empty argument')
        return True


TOKENS = re.compile(r'[A-Za-z_]\w*|##|\S')


def collide(folder, rng):
    """Macros named as the pieces that are pasted or stringized: these are not expanded"""
    names = set()
    for _, s in folder.defs:
        for m in re.finditer(r'([A-Za-z_]\w*) *##|## *([A-Za-z_]\w*)', s):
            names.add(m.group(1) or m.group(2))
    # a piece in the argument of a call nested in a body would be expanded: known finding macro-nested-hash-argument
    for _, s in folder.defs:
        t = [x for x in TOKENS.findall(s) if x.strip()]
        for i, x in enumerate(t):
            if x in names and t[i - 1:i] != ['##'] and t[i + 1:i + 2] != ['##']:
                names.discard(x)
    return names


def fold_program(rng, src, nregions=None, maxdepth=4):
    """Returns (folded source, statistics)"""
    lines = src.split('\n')
    head = []
    while lines and (lines[0].startswith('#include') or not lines[0].strip()):
        head.append(lines.pop(0))
    items = []  # [tokens, end of line]
    for l in lines:
        if l.startswith('#'):
            items.append(('directive', l))
            continue
        t = tokens(l)
        for i, x in enumerate(t):
            items.append((x, i == len(t) - 1))
    alltoks = [x for x, _ in items if x != 'directive'] + tokens(' '.join(l for l in lines if l.startswith('#')))
    f = Folder(rng, [t for t in alltoks if IDENT.match(t)])
    n = len(items)
    nregions = nregions or max(3, n // 25)
    out = list(head)
    # function-like macros with the name of a variable, never called; and self-referential macros
    idents = sorted({t for t in alltoks if IDENT.match(t) and t not in KEYWORDS and t not in ('define', 'include', 'malloc', 'free', 'printf', 'putchar', 'main', 'sizeof')})
    called = {alltoks[i] for i in range(len(alltoks) - 1) if alltoks[i + 1] == '('}
    defined = {l.split()[1].split('(')[0] for l in lines if l.startswith('#define')}
    special = [t for t in idents if t not in called and t not in defined]
    rng.shuffle(special)
    protect = set()
    late = []
    for t in special[:rng.randint(0, 4)]:
        protect.add(t)
        if rng.random() < 0.5:
            late.append('#define %s(%s) %s' % (t, rng.choice(['x', 'x, y', '']), rng.choice(['1', '+', 'x', ''])))
            f.note('identifier that is also a function-like macro')
        else:
            late.append('#define %s %s' % (t, t))
            f.note('self-referential macro')
    out += late
    cur = ''
    pending_undef = []
    i = 0
    inside = 0
    starts = sorted(rng.sample(range(n), min(n, nregions)))
    starts.reverse()
    prev = None
    while i < n:
        while starts and starts[-1] < i:
            starts.pop()
        t, eol = items[i]
        if t == 'directive':
            if cur:
                out.append(cur)
            cur, prev = '', None
            out.append(eol)
            i += 1
            continue
        if starts and starts[-1] == i:
            starts.pop()
            k = rng.choice([1, 1, 2, 3, 5, 8, 12, 20, 40])
            j = i
            T = []
            while j < n and len(T) < k and items[j][0] != 'directive':
                T.append(items[j][0])
                j += 1
            if any(x in protect for x in T):
                T = T[:[x in protect for x in T].index(True)]
                j = i + len(T)
            # a function-like macro name must not be followed by a parenthesis unless it is called:
            # identifiers which are macros of the program itself stay out of the arguments
            if T and not any(x in defined for x in T):
                f.defs = []
                F = f.fold(T, rng.randint(1, maxdepth))
                defs = f.defs
                if defs:
                    if rng.random() < 0.3:
                        rng.shuffle(defs)
                    if cur:
                        out.append(cur)
                        cur, prev = '', None
                    if rng.random() < 0.25:
                        for nm in collide(f, rng):
                            if nm not in f.used and nm not in idents and nm not in KEYWORDS and len(nm) > 1 and rng.random() < 0.7:
                                out.append('#define %s%s %s' % (nm, rng.choice(['', '(x)']), rng.choice(['wrong', '1 +', '', '77'])))
                                pending_undef.append(nm)
                                f.note('macro named as a pasted token')
                    out += [d for _, d in defs]
                    eol = items[j - 1][1]
                    lits = [x for x in F]
                    cur = f.dgap.render(lits)
                    prev = lits[-1] if lits else None
                    i = j
                    if rng.random() < 0.5:
                        pending_undef += [nm for nm, _ in defs]
                    if eol or pending_undef:
                        out.append(cur)
                        cur, prev = '', None
                        for nm in pending_undef:
                            out.append('#undef ' + nm)
                            if nm in f.used:
                                f.free.append(nm)
                        pending_undef = []
                    continue
        if prev is not None:
            cur += '' if joinable(prev, t) and rng.random() < 0.3 else ' '
        cur += t
        prev = t
        i += 1
        if eol:
            out.append(cur)
            cur, prev = '', None
    if cur:
        out.append(cur)
    return '\n'.join(out) + '\n', f.stats
