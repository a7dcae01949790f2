"""Reference executions: gcc with sanitizers certifies that a generated program has
no undefined behaviour and gives the trace that compiled programs must have."""
from .core import run, Res, HarnessError

REF_FLAGS = ['-w', '-O0', '-fsanitize=undefined,address', '-fno-sanitize-recover=all', '-fno-builtin', '-funsigned-char']


def reference(ck, src, defines=(), stdin=b'', args=(), flags=(), path=None, timeout=10, cwd=None, cc='gcc'):
    """Returns the Res of the reference, or None if it does not compile or has undefined behaviour"""
    p = path or ck.s.write(src, '.c')
    exe = ck.s.path('.ref')
    f = [x for x in REF_FLAGS if x != '-funsigned-char']
    r = run([cc] + f + list(flags) + list(defines) + [p, '-o', exe], timeout=120, cwd=cwd)
    if r.rc != 0:
        return None, r
    x = run([exe] + list(args), stdin=stdin, timeout=timeout, cwd=cwd, retry=False, extra_env={'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99', 'UBSAN_OPTIONS': 'exitcode=99'})
    if x.timeout or x.san():
        return None, x
    return x, x


def first_diff(a, b):
    la, lb = a.split(b'\n'), b.split(b'\n')
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return i, x, y
    return min(len(la), len(lb)), b'<end>' if len(la) <= len(lb) else la[len(lb)], b'<end>' if len(lb) <= len(la) else lb[len(la)]


START32 = r'''
int main();
static char out_buf[65536]; static int out_n;
static void out_flush() { char *p = out_buf; while (out_n > 0) { int r; __asm__ volatile("int $0x80" : "=a"(r) : "a"(4), "b"(1), "c"(p), "d"(out_n) : "memory"); if (r <= 0) { break; } p += r; out_n -= r; } out_n = 0; }
void exit(int r) { out_flush(); while (1) { __asm__ volatile("int $0x80" : : "a"(1), "b"(r)); } }
int putchar(int c) { out_buf[out_n++] = c; if (out_n == 65536) { out_flush(); } return c; }
__attribute__((force_align_arg_pointer)) void _start(void) { exit(main()); }
static char heap_buf[1 << 20]; static unsigned heap_n;
void *malloc(unsigned n) { char *p = heap_buf + heap_n; heap_n += (n + 15) & ~15; return p; }
void *memset(void *d, int c, unsigned n) { char *p = d; while (n--) { *p++ = c; } return d; }
void *memcpy(void *d, const void *s, unsigned n) { char *p = d; const char *q = s; while (n--) { *p++ = *q++; } return d; }
'''


def reference32(ck, src, timeout=10):
    """The trace of a program on the i386 data model: freestanding, only putchar and exit.  The program must also be certified by reference()."""
    body = '\n'.join(l for l in src.split('\n') if not l.startswith('#include <'))
    p = ck.s.write(START32 + body, '.c')
    exe = ck.s.path('.ref')
    r = run(['gcc', '-m32', '-w', '-O0', '-ffreestanding', '-nostdlib', '-static', '-no-pie', '-fno-pie', '-fno-stack-protector', '-fsanitize=undefined', '-fno-sanitize=alignment',
             '-fsanitize-undefined-trap-on-error', p, '-o', exe], timeout=120)
    if r.rc != 0:
        return None, r
    x = run([exe], timeout=timeout, retry=False)
    if x.timeout or x.rc < 0:
        return None, x
    return x, x
