"""Fixed inputs of the known findings (known_findings.txt): each is run by the check of its
property, which prints a KNOWN-FINDING line while the input fails."""
from . import core, diff, ref
from .cases import NAT_PRELUDE, SH_PRELUDE

I = SH_PRELUDE
PROGRAMS = {
    # property: [(key, target, source)]
    'C01': [
        ('sh-lvalue-index-precedence', 'dash', I + 'int arr[4]; int main() { int i = 6; arr[2] = 0; arr[i & 3] = 5; out(arr[2]); return 0; }\n'),
        ('sh-eager-conditional-address', 'dash', I + 'int ga[4]; int main() { int i = 0; int r; int c = 0; r = c && ga[i++]; out(i + r); return 0; }\n'),
        ('sh-comma-call-hoisted', 'dash', I + 'int f(int x) { return x; } int main() { int x = 1; int a; a = (x++, f(x)); out(a); return 0; }\n'),
    ],
    'C02': [
        ('zsh-hexadecimal-assignment', 'zsh', I + 'int main() { int x = 1; x |= 0x10; switch (x) { case 17: out(1); break; default: out(2); break; } return 0; }\n'),
        ('ksh-negative-zero', 'ksh', I + 'int f(int a, int b) { return a * b; } int main() { switch (f(0 - 3, 0)) { case 0: out(1); break; default: out(2); break; } return 0; }\n'),
        ('special-parameter-as-local', 'bash', I + 'int main() { int PPID = 3; out(PPID); return 0; }\n'),
        ('comma-in-arithmetic', 'dash', I + 'int main() { int x = 1; int y = 2; y = (x++, x) + 1; out(y); return 0; }\n'),
    ],
    'C03': [
        ('native-narrowing-assignment-value', 'x86_64', NAT_PRELUDE + 'int main() { char c; int r; r = (c = 300); out(r); return 0; }\n'),
        ('native-hexadecimal-literal-type', 'x86_64', NAT_PRELUDE + 'int main() { out((0xFFFFFFFF + 1 == 0)); return 0; }\n'),
        ('native-sizeof-type', 'x86_64', NAT_PRELUDE + 'int main() { int i = -1; out(i < sizeof(int)); return 0; }\n'),
        ('native-reversed-index-lvalue', 'x86_64', NAT_PRELUDE + 'int a[3]; int main() { 1[a] = 4; out(a[1]); return 0; }\n'),
    ],
    'C04': [
        ('native-narrowing-assignment-value', 'i386', NAT_PRELUDE + 'int main() { char c; int r; r = (c = 300); out(r); return 0; }\n'),
        ('native-hexadecimal-literal-type', 'i386', NAT_PRELUDE + 'int main() { out((0xFFFFFFFF > 0)); return 0; }\n'),
        ('native-reversed-index-lvalue', 'i386', NAT_PRELUDE + 'int a[3]; int main() { 1[a] = 4; out(a[1]); return 0; }\n'),
    ],
    'C06': [
        ('macro-argument-self-reference', 'x86_64', NAT_PRELUDE + 'int x = 4; int y = 5; void B(int a) { out(a); }\n#define x 1 + y\n#define y 1 + x\n#define A(a1) B(a1)\n#define B(a1) A(a1)\nint main() { B(x); B(y); return 0; }\n'),
        ('macro-nested-hash-argument', 'x86_64', NAT_PRELUDE + '#define QQ 1\n#define STR(x) #x\n#define W(x) STR(QQ)\nint main() { char *s = W(0); out(s[0]); return 0; }\n'),
        ('macro-stringize-tokens', 'x86_64', NAT_PRELUDE + '#define STR(x) #x\nint main() { char *s = STR(1+2); out(s[0]); out(s[1]); return 0; }\n'),
        ('macro-stringize-literals', 'x86_64', NAT_PRELUDE + '#define STR(x) #x\nint main() { char *s = STR(17); out(s[0]); out(s[1]); out(s[2]); return 0; }\n'),
        ('macro-paste-spelling', 'x86_64', NAT_PRELUDE + '#define P(x, y) x##y\nint x007 = 7;\nint main() { out(P(x, 007)); return 0; }\n'),
        ('macro-paste-based-numbers', 'x86_64', NAT_PRELUDE + '#define P(x, y) x##y\nint main() { out(P(0x1, 2)); return 0; }\n'),
    ],
    'C07': [
        ('nested-conditionals', 'x86_64', NAT_PRELUDE + '#if 1\n' * 11 + 'int main() { out(1); return 0; }\n' + '#endif\n' * 11),
        ('comment-before-directive', 'x86_64', NAT_PRELUDE + '/* c */ #define X 2\nint main() { out(X); return 0; }\n'),
    ],
    'C11': [
        ('question-mark-escape', 'x86_64', NAT_PRELUDE + "int main() { out('\\?'); return 0; }\n"),
        ('sh-character-constant', 'dash', I + "int main() { int c = 200; if (c == ('\\310' & 255)) { out(1); } return 0; }\n"),
        ('yash-bytes-above-127', 'yash', I + 'int main() { char *s = "\\303\\251"; out(s[0] & 255); return 0; }\n'),
    ],
    'C12': [
        ('printf-runtime-trailing-newline', 'dash', '#include <stdio.h>\nint main() { char *f = "%s|"; printf(f, "a\\n"); return 0; }\n'),
        ('printf-width-trailing-newline', 'dash', '#include <stdio.h>\nint main() { printf("%3s|", "a\\n"); return 0; }\n'),
        ('printf-runtime-long', 'dash', '#include <stdio.h>\nint main() { char *f = "%ld|"; printf(f, 5); return 0; }\n'),
        ('printf-result', 'dash', '#include <stdio.h>\nint main() { int n = printf("abc"); if (n == 3) { putchar(65); } return 0; }\n'),
        ('puts-literal', 'dash', '#include <stdio.h>\nint main() { puts("abc"); return 0; }\n'),
        ('putstr-defined', 'dash', I + 'void putstr(char *s) { out(5); } int main() { putstr("abc"); return 0; }\n'),
        ('printf-star-yash', 'yash', '#include <stdio.h>\nint main() { printf("%*d", 5, 5); return 0; }\n'),
        ('printf-excess-mksh', 'mksh', '#include <stdio.h>\nint main() { printf("%d%s\\n", 5, "a"); return 0; }\n'),
    ],
    'C13': [
        ('sh-negative-exit-status', 'dash', I + 'int main() { return -1; }\n'),
        ('sh-open-failure', 'bash', I + 'int open(char *name, int flags, int mode);\nint main() { int f = open("/nonexistent/file", 0, 0); if (f < 0) { out(1); } else { out(2); } return 0; }\n'),
    ],
    'C27': [
        ('mac-errors', 'mac', NAT_PRELUDE + 'int open(char *name, int flags, int mode);\nint main() { out(open("/nonexistent/file", 0, 0) < 0); return 0; }\n'),
    ],
}


def target(ck, name):
    if name in core.SHELLS:
        return diff.sh(ck, [name])
    if name == 'mac':
        return diff.Mac(ck)
    return diff.native(ck, name)


def run(ck):
    """Run the probes of the property of ck"""
    for key, t, src in PROGRAMS.get(ck.pid, []):
        if key not in ck.known:
            raise core.HarnessError('no known finding ' + key)
        diff.check_source(ck, src, [target(ck, t)], 'probe of ' + key, key=key)
        ck.count()
