"""A mix of all the generated programs, and mutations of programs into invalid ones."""
import glob, os, random, re
from . import pointers, shflow, calls, cases, flow, groups, macros, progs, typegen
from .core import REPO, VERIF


def program(rng, dialect, small=False):
    """A random valid program.  dialect: sh, i386 or x86_64"""
    from .checks import c11

    class T:
        shells = ['dash', 'yash'] if dialect == 'sh' else None
        name = dialect
    k = rng.random()
    sh = dialect == 'sh'
    bits = 64 if dialect == 'x86_64' else 32
    pre = cases.SH_PRELUDE if sh else cases.NAT64_PRELUDE if bits == 64 else cases.NAT_PRELUDE
    if small:
        return progs.Prog(rng, dialect, budget=120, nfuns=rng.randint(1, 2)).source(cases.SH_PRELUDE if sh else cases.NAT_PRELUDE) if k < 0.6 else pre + calls.Calls(rng, bits, sh).source()
    if k < 0.12:
        return pre + calls.Calls(rng, bits, sh).source()
    if k < 0.2:
        return strings_program(rng, T)
    if not sh and k < 0.55:
        return pre + rng.choice([typegen.Layout, typegen.Decls, typegen.Inits, flow.Flow, pointers.Pointers])(rng, bits).source()
    if sh and k < 0.35:
        return pre + shflow.ShFlow(rng).source()
    src = progs.Prog(rng, dialect, budget=rng.choice([200, 400]), nfuns=rng.randint(1, 4)).source(cases.SH_PRELUDE if sh else cases.NAT_PRELUDE)
    if rng.random() < 0.4:
        src, _ = macros.fold_program(rng, src, maxdepth=rng.choice([1, 2, 4]))
    return src


def strings_program(rng, t):
    from .checks import c11
    r = c11.program(rng, t)
    return r if isinstance(r, str) else r[0]


def repo_sources():
    """The C sources of the repository, as seeds of mutations"""
    fs = []
    for p in ('examples/*.c', 'tests/**/*.c', 'portable_libc/src/*.c'):
        fs += glob.glob(os.path.join(REPO, p), recursive=True)
    return sorted(f for f in fs if os.path.getsize(f) < 20000)


TOK = re.compile(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|[A-Za-z_]\w*|0[xX][0-9a-fA-F]+\w*|\d\w*|<<=|>>=|\.\.\.|->|\+\+|--|<<|>>|&&|\|\||[-+*/%&|^<>=!]=|##|\n|[ \t]+|.', re.S)
WORDS = ['int', 'char', 'struct', 'union', 'enum', 'typedef', 'static', 'extern', 'const', 'void', 'if', 'else', 'while', 'for', 'do', 'switch', 'case', 'default', 'break', 'continue', 'return', 'goto', 'sizeof', 'long', 'short',
         'unsigned', 'signed', 'float', 'double', 'volatile', 'register', 'auto', 'inline', '(', ')', '{', '}', '[', ']', ';', ',', '*', '&', '=', '==', '+', '-', '!', '~', '?', ':', '->', '.', '++', '--', '<<', '>>', '&&', '||', '+=', '0', '1',
         '-1', '0x7fffffff', '4294967296', '18446744073709551615', '"s"', "'a'", "''", '"', "'", '\\', '#', '##', '\n#if 1\n', '\n#else\n', '\n#endif\n', '\n#define M(x) x\n', '\n#define F G\n', '\n#undef M\n', '\n#include "nothing.h"\n', '\n#error no\n',
         '\n#elif 0\n', '\n#ifdef X\n', '...', '/*', '*/', '//', '@', '$', '`', '\x00', '\xff', '__LINE__', '__FILE__', 'defined', 'main', 'x', 'M(1, 2)', 'M(', '()', '{}', '[]', '(int)', '(void)', '\t', '']


def mutate(rng, src, n=None):
    """A few random edits of the tokens of a program"""
    ts = TOK.findall(src)
    if not ts:
        return src
    for _ in range(n if n is not None else rng.choice([1, 1, 1, 2, 3, 6])):
        k = rng.random()
        i = rng.randrange(len(ts))
        if k < 0.2:
            del ts[i]
        elif k < 0.35:
            ts.insert(i, rng.choice(WORDS))
        elif k < 0.55:
            ts[i] = rng.choice(WORDS)
        elif k < 0.65:
            j = rng.randrange(len(ts))
            ts[i], ts[j] = ts[j], ts[i]
        elif k < 0.72:
            ts.insert(i, ts[i])
        elif k < 0.78:
            j = min(len(ts), i + rng.randint(1, 12))
            ts[i:i] = ts[i:j]
        elif k < 0.84:
            j = min(len(ts), i + rng.randint(1, 25))
            del ts[i:j]
        elif k < 0.88:
            ts = ts[:i]
        elif k < 0.96:
            # another token of the same program
            ts[i] = rng.choice(ts)
        else:
            s = ts[i]
            if s:
                p = rng.randrange(len(s))
                ts[i] = s[:p] + chr(rng.choice([rng.randrange(256), rng.randrange(32, 127)])) + s[p + rng.randint(0, 1):]
        if not ts:
            break
    return ''.join(ts)


def garbage(rng):
    """Unstructured inputs"""
    k = rng.random()
    if k < 0.3:
        return ''.join(chr(rng.randrange(256)) for _ in range(rng.randint(0, 80)))
    if k < 0.7:
        return ' '.join(rng.choice(WORDS) for _ in range(rng.randint(0, 60)))
    return rng.choice(WORDS) * rng.randint(1, 300)
