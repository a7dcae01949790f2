"""Metamorphic monitor: a program and an equivalent one (before and after preprocessing by
construction) must be compiled to the same code; if the code differs, both are executed."""
import os
from . import ref
from .core import run
from .diff import describe
from .macros import tokens


def pptokens(ck, src, cwd=None, flags=()):
    """Tokens after preprocessing by gcc, without the system headers"""
    src = '\n'.join(l for l in src.split('\n') if not l.startswith('#include <std'))
    r = run(['gcc', '-E', '-P', '-w', '-x', 'c'] + list(flags) + ['-'], stdin=src.encode('latin-1'), cwd=cwd)
    return (tokens(r.out.decode('latin-1')) if r.rc == 0 else None), r


def same(ck, t, orig, new, what, cwd_new=None, flags=(), files=None):
    """orig, new: file paths.  t: diff.Target"""
    a, ra = t.compile(orig)
    if a is None:
        ck.unsure('%s: the plain program is not compiled: %r' % (what, ra))
        return
    base = t.flags
    import copy
    t2 = copy.copy(t)
    t2.flags = list(base) + list(flags)
    b, rb = t2.compile(new, cwd=cwd_new)
    files = dict(files or {})
    files['plain.c'] = open(orig, 'rb').read()
    ck.count()
    if b is None:
        if rb.timeout:
            ck.unsure('%s: timeout' % what)
            return
        ck.violation('%s [%s]: the compiler fails on the program using the preprocessor (exit status %d) but not on its expansion: %r %r' % (
            what, t.name, rb.rc, rb.out[-200:], rb.err[:500]), files)
        return
    ba, bb = open(a, 'rb').read(), open(b, 'rb').read()
    if ba == bb:
        ck.bump('identical_outputs')
        os.unlink(a)
        os.unlink(b)
        return
    x, r = ref.reference(ck, ba, path=orig)
    if x is None:
        ck.unsure('%s: different code and no reference: %r' % (what, r))
        return
    bad = False
    for out in (a, b):
        for n, y in t.runs(out):
            if y.timeout:
                ck.unsure('%s: timeout' % what)
                return
            d = describe(x, y)
            if d and out == a:
                ck.unsure('%s: the plain program misbehaves: %s' % (what, d))
                return
            if d:
                files['code-plain'], files['code-preprocessed'] = ba, bb
                ck.violation('%s [%s]: the program using the preprocessor does not behave as its expansion: %s' % (what, n, d), files)
                bad = True
                break
    if not bad:
        ck.bump('different_code_same_behaviour')
