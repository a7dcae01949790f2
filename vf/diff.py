"""Differential monitors: compile a program with pnut, run it, and compare what it did
(its trace on stdout, its exit status) with a reference execution."""
import os
from . import core, ref
from .core import run

# what each level of a comparison requires of an execution: same bytes on stdout, same exit
# status, nothing on stderr


class Target:
    """A compiler variant, and the ways its output is executed"""

    def __init__(self, ck, name, exe, shells=None, flags=(), timeout=30):
        self.retry = True      # False for programs that change files
        self.ck, self.name, self.exe, self.shells, self.flags, self.timeout = ck, name, exe, shells, list(flags), timeout
        self.ignore_err = None

    def compile(self, path, cwd=None, stdin=b''):
        """Returns (output path or None, Res)"""
        out = self.ck.s.path('.out')
        if self.shells is None:
            r = run([self.exe, path, '-o', out] + self.flags, timeout=self.timeout, cwd=cwd, stdin=stdin)
        else:
            r = run([self.exe, path] + self.flags, timeout=self.timeout, cwd=cwd, stdin=stdin)
            if r.rc == 0 and not r.timeout:
                with open(out, 'wb') as f:
                    f.write(r.out)
        if r.rc != 0 or r.timeout or r.san():
            return None, r
        if not os.path.exists(out):
            r.err += b'\n(no output file)'
            return None, r
        os.chmod(out, 0o755)
        return out, r

    def runs(self, out, args=(), stdin=b'', cwd=None, extra_env=None, shells=None):
        """Yields (name, Res)"""
        if self.shells is None:
            yield self.name, run([out] + list(args), stdin=stdin, cwd=cwd, timeout=self.timeout, extra_env=extra_env, retry=self.retry)
        else:
            for s in shells or self.shells:
                yield s, run([s, out] + list(args), stdin=stdin, cwd=cwd, timeout=self.timeout, extra_env=extra_env, retry=self.retry)


def sh(ck, shells=('dash',), flags=(), san=True, name='sh'):
    return Target(ck, name, ck.build('-Dsh', *flags, san=san), list(shells))


def native(ck, arch, flags=(), san=True):
    """arch: x86_64 or i386"""
    return Target(ck, arch, ck.build('-Dtarget_%s_linux' % arch, *flags, san=san))


class Mac(Target):
    """The executables for macOS, run by machorun.c"""

    def __init__(self, ck, flags=(), san=True):
        Target.__init__(self, ck, 'mac', ck.build('-Dtarget_x86_64_mac', *flags, san=san))
        self.loader = ck.s.path('-machorun')
        r = run(['gcc', '-O1', '-w', os.path.join(core.VERIF, 'vf', 'machorun.c'), '-o', self.loader], timeout=100)
        if r.rc:
            raise core.HarnessError('machorun.c: %r' % r)

    def runs(self, out, args=(), stdin=b'', cwd=None, extra_env=None, shells=None):
        yield self.name, run([self.loader, out] + list(args), stdin=stdin, cwd=cwd, timeout=self.timeout, extra_env=extra_env, retry=self.retry)


def describe(x, r):
    """The difference between the reference x and the execution r, or None"""
    if r.timeout:
        return None
    if r.out != x.out:
        i, a, b = ref.first_diff(x.out, r.out)
        return 'output differs at line %d: expected %r, got %r (exit status %d, expected %d; stderr %r)' % (i + 1, a[:200], b[:200], r.rc, x.rc, r.err[-200:])
    if r.rc != x.rc:
        return 'exit status %d, expected %d (stderr %r)' % (r.rc, x.rc, r.err[-200:])
    if r.err:
        return 'unexpected output on stderr: %r' % r.err[-200:]
    return None


def check_source(ck, src, targets, what, args=(), stdin=b'', x=None, key=None, quiet=False, cwd=None, ref_flags=(), ref_src=None, events=None):
    """Compare a program with its reference on every target.  Returns the list of problems;
    reports them unless quiet."""
    f = ck.s.write(src, '.c')
    if x is None:
        x, r = ref.reference(ck, ref_src or src, path=f if ref_src is None else None, args=args, stdin=stdin, flags=ref_flags, cwd=cwd)
        if x is None:
            if r.timeout:
                ck.unsure('%s: the reference timed out' % what)
            else:
                ck.unsure('%s: no reference: %r' % (what, r))
            return []
    problems = []
    for t in targets:
        out, r = t.compile(f, cwd=cwd)
        if out is None:
            if r.timeout:
                ck.unsure('%s: %s timed out' % (what, t.name))
                continue
            problems.append((t.name, 'the compiler fails (exit status %d): %r %r' % (r.rc, r.out[-200:], r.err[:600]), None))
            continue
        for n, y in t.runs(out, args, stdin, cwd):
            if y.timeout:
                ck.unsure('%s: %s timed out' % (what, n))
                continue
            if t.ignore_err:
                y.err = t.ignore_err.sub(b'', y.err)
            d = describe(x, y)
            ck.bump('executions_compared')
            ck.bump('trace_lines_compared', x.out.count(b'\n'))
            if d:
                problems.append((n, d, out))
        try:
            if not any(p[2] == out for p in problems):
                os.unlink(out)
        except OSError:
            pass
    if problems and not quiet:
        files = {'input.c': src, 'expected': x.out}
        for n, d, out in problems:
            if out and os.path.exists(out):
                files['compiled-' + n] = open(out, 'rb').read()
        if stdin:
            files['stdin'] = stdin
        ck.violation('%s: ' % what + '; '.join('[%s] %s' % (n, d) for n, d, _ in problems), files, key=key)
    return problems


def check_cases(ck, p, targets, what):
    """Run a CaseProgram; on a difference find the failing cases."""
    if not p.bodies:
        return
    pr = check_source(ck, p.source(), targets, what, quiet=True)
    ck.count(sum(len(m) for m in p.mains))
    for k in p.keys:
        ck.seen(k)
    if not pr:
        return
    bad = 0
    # groups first, then single cases
    idx = list(range(len(p.bodies)))
    groups = [idx[i:i + 12] for i in range(0, len(idx), 12)]
    for g in groups:
        if check_source(ck, p.source(g), targets, what, quiet=True):
            for i in g:
                if check_source(ck, p.source([i]), targets, '%s: %s' % (what, p.bodies[i].strip().split('\n')[-1][:400])):
                    bad += 1
                    if bad >= 3:
                        return
    if not bad:
        check_source(ck, p.source(), targets, what + ' (only the whole program fails)')
