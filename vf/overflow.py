"""Inputs that fill the tables of the compiler."""


def programs(rng, dialect, size=None):
    """(name, source, valid) of inputs with very many or very large constructs; sizes are random around the limits, or given"""
    sh = dialect == 'sh'
    r = rng.randint
    big = lambda lo, hi: int(lo * (hi / lo) ** rng.random()) if size is None else size(lo, hi) if callable(size) else size
    main = 'int main() { return 0; }\n'
    P = {}

    def p(name, f):
        P[name] = f
    p('identifiers', lambda: ''.join('int v%d;\n' % i for i in range(big(100, 25000))) + main)
    p('long identifier', lambda: 'int %s;\n' % ('a' * big(100, 700000)) + main)
    p('macros', lambda: ''.join('#define M%d(x, y) x + y + %d\n' % (i, i) for i in range(big(100, 20000))) + main)
    p('long macro', lambda: '#define M %s 0\nint main() { return M; }\n' % ('0 + ' * big(100, 4000)))
    p('macro redefinitions', lambda: '#define M 1\n#undef M\n' * big(100, 100000) + main)
    p('nested macro calls', lambda: (lambda n: '#define F(x) x\nint main() { return %s0%s; }\n' % ('F(' * n, ')' * n))(big(2, 600)))
    p('macro chain', lambda: (lambda n: '#define M0 0\n' + ''.join('#define M%d M%d\n' % (i + 1, i) for i in range(n)) + 'int main() { return M%d; }\n' % n)(big(2, 5000)))
    p('exponential macro', lambda: (lambda n: '#define M0 0\n' + ''.join('#define M%d M%d + M%d\n' % (i + 1, i, i) for i in range(n)) + 'int main() { return M%d; }\n' % n)(big(2, 16)))
    p('macro parameters', lambda: (lambda n: '#define M(%s) 0\nint main() { return M(%s); }\n' % (', '.join('p%d' % i for i in range(n)), ', '.join('%d' % i for i in range(n))))(big(2, 5000)))
    p('macro argument', lambda: '#define S(x) #x\nchar *s = S(%s);\n' % ('a b ' * big(10, 200000)) + main)
    p('pasting', lambda: '#define P(a, b) a##b\nint %s;\n' % ('P(x, ' * big(1, 40) + 'y' * big(1, 100000)) + main)
    p('nested conditionals', lambda: (lambda n: '#if 1\n' * n + main + '#endif\n' * n)(big(1, 60)))
    p('nested skipped conditionals', lambda: (lambda n: '#if 0\n' * n + main + '#endif\n' * n + main)(big(1, 60)))
    p('conditionals', lambda: '#if 1\n#else\n#endif\n' * big(100, 100000) + main)
    p('string', lambda: 'char *s = "%s";\n' % ('x' * big(100, 700000)) + main)
    p('strings', lambda: ''.join('char *s%d = "string %d";\n' % (i, i) for i in range(big(100, 30000))) + main)
    p('escapes', lambda: 'char *s = "%s";\n' % ('\\n\\\\' * big(100, 200000)) + main)
    p('adjacent strings', lambda: 'char *s = %s;\n' % ('"ab"\n' * big(100, 100000)) + main)
    p('stringized', lambda: '#define S(x) #x\n' + ''.join('char *s%d = S(a%d b%d);\n' % (i, i, i) for i in range(big(100, 20000))) + main)
    p('comment', lambda: '/*%s*/\n' % ('*' * big(100, 1000000)) + main)
    p('line', lambda: 'int a;%sint b;\n' % (' ' * big(100, 1000000)) + main)
    p('lines', lambda: '\n' * big(100, 1000000) + main)
    p('nested parentheses', lambda: (lambda n: 'int main() { return %s0%s; }\n' % ('(' * n, ')' * n))(big(2, 3000)))
    p('unary operators', lambda: 'int main() { int x = 0; return %sx; }\n' % ('- ' * big(2, 3000)))
    p('right nested expression', lambda: (lambda n: 'int main() { int x = 0; return %sx%s; }\n' % ('(x + ' * n, ')' * n))(big(2, 2000)))
    p('left nested expression', lambda: 'int main() { int x = 0; return x%s; }\n' % (' + x' * big(2, 5000)))
    p('assignments', lambda: 'int main() { int x; %sx = 0; return x; }\n' % ('x = ' * big(2, 2000)))
    p('comma', lambda: 'int x; int main() { %sx = 0; return x; }\n' % ('x = 1, ' * big(2, 3000)))
    p('ternary', lambda: 'int main() { int x = 0; return %s0; }\n' % ('x ? 1 : ' * big(2, 2000)))
    p('nested blocks', lambda: (lambda n: 'int main() { %s int x = 0; %s return 0; }\n' % ('{ ' * n, '} ' * n))(big(2, 2000)))
    p('nested loops', lambda: (lambda n: 'int main() { int x = 0; %s x = 1; %s return 0; }\n' % ('while (x) { ' * n, '} ' * n))(big(2, 1000)))
    p('else if', lambda: 'int main() { int x = 0; %s { x = 1; } return 0; }\n' % ''.join('if (x == %d) { x = 2; } else ' % i for i in range(big(2, 2000))))
    p('nested switches', lambda: (lambda n: 'int main() { int x = 0; %s x = 1; %s return 0; }\n' % ('switch (x) { case 1: ' * n, 'break; } ' * n))(big(2, 200)))
    p('cases', lambda: 'int main() { int x = 0; switch (x) { %s default: break; } return 0; }\n' % ''.join('case %d: x = 1; break;\n' % i for i in range(big(2, 10000))))
    p('parameters', lambda: (lambda n: 'int f(%s) { return p0; }\nint main() { return f(%s); }\n' % (', '.join('int p%d' % i for i in range(n)), ', '.join('0' for i in range(n))))(big(2, 1500)))
    p('locals', lambda: 'int main() { %s return 0; }\n' % ''.join('int l%d = %d;\n' % (i, i) for i in range(big(2, 4000))))
    p('functions', lambda: ''.join('int f%d(int x) { return x; }\n' % i for i in range(big(100, 12000))) + main)
    p('prototypes', lambda: ''.join('int f(int x);\n' for i in range(big(100, 30000))) + main)
    p('statements', lambda: 'int x; int main() { %s return 0; }\n' % ('x = x + 1;\n' * big(100, 60000)))
    p('calls', lambda: 'int f(int x) { return x; } int main() { %s return 0; }\n' % ('f(1);\n' * big(100, 40000)))
    p('nested calls', lambda: (lambda n: 'int f(int x) { return x; } int main() { return %s0%s; }\n' % ('f(' * n, ')' * n))(big(2, 1500)))
    p('structure members', lambda: 'struct S { %s };\n' % ''.join('int m%d;\n' % i for i in range(big(2, 10000))) + main)
    p('structures', lambda: ''.join('struct S%d { int m%d; };\n' % (i, i) for i in range(big(2, 10000))) + main)
    p('enumerators', lambda: 'enum E { %s };\n' % ', '.join('E%d' % i for i in range(big(2, 20000))) + main)
    p('typedefs', lambda: 'typedef int T0;\n' + ''.join('typedef T%d T%d;\n' % (i, i + 1) for i in range(big(2, 10000))) + main)
    p('array size', lambda: 'int a[%d];\n' % rng.choice([0, 1, 1000000, 2147483647, 2147483648, 4294967295, 4294967296, big(2, 1 << 62)]) + main)
    p('initializer', lambda: 'int a[] = {%s};\n' % ', '.join('%d' % i for i in range(big(2, 30000))) + main)
    p('declarators', lambda: 'int %s;\n' % ', '.join('d%d' % i for i in range(big(2, 20000))) + main)
    p('pointers', lambda: 'int %sp;\n' % ('*' * big(2, 3000)) + main)
    p('dimensions', lambda: 'int p%s;\n' % ('[1]' * big(2, 1000)) + main)
    p('sizeof', lambda: 'int main() { return %s1; }\n' % ('sizeof ' * big(2, 2000)))
    p('casts', lambda: 'int main() { return %s1; }\n' % ('(int) ' * big(2, 2000)))
    p('postfix', lambda: 'int *p; int main() { return p%s; }\n' % ('[0]' * big(2, 2000)))
    p('number', lambda: 'int x = %s;\n' % ('9' * big(2, 10000)) + main)
    p('hexadecimal number', lambda: 'int x = 0x%s;\n' % ('f' * big(2, 10000)) + main)
    p('logical operators', lambda: 'int main() { int x = 0; if (%s x) { return 1; } return 0; }\n' % ('x || x && ' * big(2, 1000)))
    p('conditional expression', lambda: '#if %s 1\n#endif\n' % ('1 + ' * big(2, 3000)) + main)
    p('nested structures', lambda: (lambda n: '%s int m; %s;\n' % (''.join('struct S%d { ' % i for i in range(n)), ' '.join('} s%d;' % i for i in reversed(range(n)))[:-1]))(big(2, 12)) + main)
    p('nested initializer', lambda: (lambda n: 'int a%s = %s1%s;\n' % ('[1]' * n, '{' * n, '}' * n))(big(2, 600)) + main)
    if not sh:
        p('labels', lambda: 'int main() { %s return 0; }\n' % ''.join('l%d: ;\n' % i for i in range(big(2, 10000))))
        p('gotos', lambda: 'int main() { %s l: return 0; }\n' % ('goto l;\n' * big(2, 30000)))
        p('local array', lambda: 'int main() { char a[%d]; return 0; }\n' % big(2, 1 << 34))
        p('local initializer', lambda: 'int main() { int a[] = {%s}; return 0; }\n' % ', '.join('%d' % i for i in range(big(2, 10000))))
    return P
