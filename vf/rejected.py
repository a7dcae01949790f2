"""Constructs that are rejected, each with a valid counterpart.

Every line is: backends (s: shell, n: native, b: both) | wrong | right.  In statements, %v is an int, %p a pointer to int, %s a pointer to a struct.
"""

PRE = '''struct VA { int va_x; int va_y; };
enum VE { VE1, VE2 };
typedef int VT;
int vg; int varr[3];
int vf0(int vfa) { return vfa; }
int *vp0(int *vfp) { return vfp; }
'''

# statements of a function, outside of loops and switches
OUTER = r'''
b|break;|while (1) break;
b|continue;|while (%v++ < 3) continue;
b|if (%v) { break; }|while (1) { if (%v) { break; } else %v = 0; break; }
b|{ continue; }|while (%v++ < 3) { continue; }
b|case 1: %v = 1;|switch (%v) { case 1: %v = 1; break; }
b|default: %v = 1;|switch (%v) { default: %v = 1; break; }
b|if (%v) case 1: %v = 1;|if (%v) %v = 1;
'''

STMT = r'''
n|switch (%v) { default: %v = 1; break; default: %v = 2; break; }|switch (%v) { case 3: %v = 1; break; default: %v = 2; break; }
s|goto vf_lab; vf_lab: %v = 1;|%v = 1;
n|vf_l1: %v = 1; vf_l1: %v = 2;|vf_l1: %v = 1; vf_l2: %v = 2;
n|vf_l1: %v = 1; if (%v) { vf_l1: %v = 2; }|vf_l1: %v = 1; if (%v) { vf_l2: %v = 2; }
b|3 = %v;|%v = 3;
b|%v + 1 = 3;|%v = 3 + 1;
b|-%v = 3;|%v = -3;
b|!%v = 3;|%v = !3;
b|%v == 3 = 4;|%v = 3 == 4;
b|(%v, vg) = 3;|%v = (vg, 3);
b|%v++ = 3;|%v = 3;
b|%v && vg = 3;|%v = vg && 3;
b|vf0(1) = 3;|%v = vf0(1);
b|"a" = 3;|%v = 3;
b|'a' = 3;|%v = 3;
b|sizeof(int) = 3;|%v = sizeof(int);
b|(%v ? %v : vg) = 3;|%v = %v ? %v : vg;
b|%v * 2 = 3;|%v = 3 * 2;
b|(%v * vg) += 3;|%v += 3 * 2;
b|++3;|++%v;
b|3++;|%v++;
b|--(%v + 1);|--%v;
b|(%v + 1)++;|(%v)++;
b|(%v * 2)--;|(%v)--;
n|--vf0(1);|--%v;
b|3 += %v;|%v += 3;
b|%v + 1 -= 3;|%v -= 3;
b|(%v + 1) <<= 3;|%v <<= 3;
b|3 %= %v;|%v %= 3;
s|%p = &vg;|%p = 0;
n|%p = &3;|%p = &vg;
n|%p = &(%v + 1);|%p = &vg;
n|%v = *%v;|%v = *%p;
n|%v = **%p;|%v = *%p;
n|%v = %v[%v];|%v = %p[%v];
n|*%v = 3;|*%p = 3;
n|%v[1] = 3;|%p[1] = 3;
b|%v = %v.va_x;|%v = %s->va_x;
n|%v = %v->va_x;|%v = %s->va_x;
n|%v = %s.va_x;|%v = %s->va_x;
n|%v = (*%s)->va_x;|%v = (*%s).va_x;
n|%v = %s->va_z;|%v = %s->va_x;
n|%s->va_z = 3;|%s->va_x = 3;
n|(*%s).va_z = 3;|(*%s).va_x = 3;
n|%v = %p->va_x;|%v = %s->va_x;
n|%v = vundef;|%v = vg;
n|vundef = %v;|vg = %v;
n|vundef++;|vg++;
n|%v = varr[vundef];|%v = varr[vg];
n|%v = vf0(vundef);|%v = vf0(vg);
n|%v = vundeff(1);|%v = vf0(1);
n|%v = %p * 2;|%v = %v * 2;
n|%v = %p & 1;|%v = %v & 1;
n|%v = %p | %v;|%v = %v | %v;
n|%v = %v ^ %p;|%v = %v ^ %v;
n|%v = %p / 2;|%v = %v / 2;
n|%v = 7 % %p;|%v = 7 % 3;
n|%v = %p << 1;|%v = %v << 1;
n|%v = 1 >> %p;|%v = 1 >> 1;
n|%v = vf0(1, vundef);|%v = vf0(vg);
s|int vf_u; int vf_u;|int vf_u; int vf_u2;
s|int vf_u; { int vf_u; vf_u = 1; }|int vf_u; { int vf_u2; vf_u2 = 1; }
b|int vf_f5() { return 1; }|int vf_u;
b|int vf_a[vg];|int vf_a;
b|int vf_a[%v];|int vf_a;
n|int vf_a[];|int vf_a[1];
n|int vf_a[2] = {1, 2, 3};|int vf_a[3] = {1, 2, 3};
n|char vf_a[2] = "abc";|char vf_a[4] = "abc";
n|int vf_a[3] = 3;|int vf_a[3] = {3};
n|int vf_a = {1, 2};|int vf_a = {1};
n|int vf_a[3] = "abc";|char vf_a[4] = "abc";
n|struct VA vf_a = {1, 2, 3, 4}, vf_b[1] = {{1}, {2}};|struct VA vf_a = {1, 2}, vf_b[1] = {{1}};
b|extern int vf_u;|int vf_u;
s|static int vf_u = 3;|int vf_u;
s|struct VA vf_u;|struct VA *vf_u;
s|struct VA vf_u[2];|struct VA *vf_u;
s|int vf_u[3];|int vf_u;
s|unsigned vf_u;|int vf_u;
s|unsigned char vf_u;|char vf_u;
s|int vf_u[] = {1, 2};|int vf_u;
s|int vf_u = {1};|int vf_u = 1;
s|int _vf_u;|int vf_u;
s|int IFS;|int vf_u;
s|int argv_;|int vf_u;
b|float vf_u;|int vf_u;
b|double vf_u;|int vf_u;
b|struct VA { int vf_m; };|%v = 1;
b|typedef int VLT;|%v = 1;
b|enum { VLE };|%v = 1;
b|int char vf_u;|char vf_u;
b|int vf_u vf_w;|int vf_u, vf_w;
b|int vf_u, ;|int vf_u;
b|int vf_u = ;|int vf_u = 1;
b|int vf_u = 1 2;|int vf_u = 12;
b|int;|int vf_u;
b|int 3;|int vf_u;
b|int *;|int *vf_u;
b|%v = 1.5;|%v = 15;
b|%v = 1e3;|%v = 13;
b|%v = 08;|%v = 07;
b|%v = 0189;|%v = 017;
b|%v = 0x;|%v = 0x1;
b|%v = 0xg;|%v = 0xf;
b|%v = 1abc;|%v = 1;
b|%v = 0b102;|%v = 2;
b|%v = '';|%v = 'a';
b|%v = 'ab';|%v = 'a';
b|%v = 'a;|%v = 'a';
b|%v = '\q';|%v = 'q';
b|%v = '\x';|%v = '\n';
b|%p = "a;|%p = 0;
b|%v = vf0("\q");|%v = vf0(1);
b|%v = vf0("\xg");|%v = vf0(1);
b|%v = L'a';|%v = 'a';
b|%v = 1 /* unclosed ;|%v = 1 /* closed */;
b|%v = (struct VA) { 1, 2 };|%v = 1;
b|%v = ({ 1; });|%v = (1);
b|%v = vg ?: 1;|%v = vg ? vg : 1;
b|%v = vg ? 1;|%v = vg ? 1 : 2;
b|%v = vg : 1;|%v = vg ? 1 : 2;
b|typeof(%v) vf_u;|int vf_u;
s|switch (%v) { case 1: %v = 1; case 2: %v = 2; break; }|switch (%v) { case 1: %v = 1; break; case 2: %v = 2; break; }
s|switch (%v) { default: %v = 1; case 2: break; }|switch (%v) { case 2: break; default: %v = 1; break; }
s|switch (%v) { case 1: if (%v) { break; } %v = 3; break; }|switch (%v) { case 1: if (%v) { %v = 3; } break; }
s|switch (%v) { %v = 1; case 1: %v = 2; break; }|switch (%v) { case 1: %v = 2; break; }
s|switch (%v) %v = 1;|switch (%v) { case 1: %v = 1; break; }
b|switch (%v) { case 1 ... 3: %v = 1; break; }|switch (%v) { case 1: case 3: %v = 1; break; }
s|%v = %v ? vf0(1) : 2;|%v = %v ? 1 : 2;
s|%v = 1 + (%v ? 2 : vf0(1));|%v = 1 + (%v ? 2 : 3);
b|else %v = 1;|if (%v) %v = 2; else %v = 1;
b|if %v %v = 1;|if (%v) %v = 1;
b|if () %v = 1;|if (1) %v = 1;
b|while () %v = 1;|while (0) %v = 1;
b|while (%v %v = 1;|while (0) %v = 1;
b|do %v = 1; %v = 2;|do %v = 1; while (0);
b|do %v = 1; while (0)|do %v = 1; while (0);
b|for (%v = 1; %v < 2) %v = 3;|for (%v = 1; %v < 2; %v++) %v = 3;
b|for (%v = 1, %v < 2, %v++) %v = 3;|for (%v = 1; %v < 2; %v++) %v = 3;
b|for (int vf_i = 0; vf_i < 2; vf_i++) %v = 3;|for (%v = 1; %v < 2; %v++) %v = 3;
b|goto 3;|%v = 3;
b|goto;|%v = 3;
b|return 1|return 1;
b|return return;|return 1;
b|break 3;|%v = 3;
b|%v = 3|%v = 3;
b|%v = ;|%v = 3;
b|%v = (3;|%v = (3);
b|%v = 3);|%v = (3);
b|%v = 3 +;|%v = 3 + 1;
b|%v = * ;|%v = *%p;
b|%v = / 3;|%v = 3 / 3;
b|%v = 3 3;|%v = 3;
b|%v = %v %v;|%v = %v * %v;
b|%v = varr[1;|%v = varr[1];
b|%v = varr[];|%v = varr[1];
b|%v = varr 1];|%v = varr[1];
b|%v = vf0(1;|%v = vf0(1);
b|%v = vf0(1,);|%v = vf0(1);
b|%v = vf0(,1);|%v = vf0(1);
b|%v = vf0(1 2);|%v = vf0(12);
b|%v = %s->;|%v = %s->va_x;
b|%v = %s->3;|%v = %s->va_x;
b|%v = ->va_x;|%v = %s->va_x;
b|%v = sizeof();|%v = sizeof(int);
b|%v = sizeof;|%v = sizeof(int);
b|%v = (int;|%v = (int) 1;
b|%v = (int) ;|%v = (int) 1;
b|%v = int;|%v = 1;
b|%v = return;|%v = 1;
b|%v @ 1;|%v + 1;
b|%v = `1`;|%v = 1;
b|%v = \ 1;|%v = 1;
n|%v = sizeof(struct VNONE);|%v = sizeof(struct VA);
n|%v = VE3;|%v = VE2;
n|VE1 = 3;|%v = VE1;
n|varr = %p;|varr[0] = 1;
s|printf("%f", %v);|printf("%d", %v);
s|printf("%d %d", %v);|printf("%d", %v);
s|printf("%y", %v);|printf("%d", %v);
'''

TOP = r'''
b|int vf_x[vg];|int vf_x[3];
b|int vf_x[];|int vf_x[2];
b|int vf_x[2] = {1, 2, 3};|int vf_x[3] = {1, 2, 3};
s|int vf_x[2] = {{1}, 2};|int vf_x[2] = {1, 2};
b|char vf_x[2] = "abc";|char vf_x[4] = "abc";
b|int vf_x = {1, 2};|int vf_x = 1;
b|int vf_x[2] = 3;|int vf_x[2] = {3};
s|struct VA vf_x;|struct VA *vf_x;
s|struct VA vf_x[2];|struct VA *vf_x[2];
n|struct VA { int vf_a; };|struct VB { int vb_a; };
b|struct VB { void vb_a; };|struct VB { void *vb_a; };
b|struct VB { int; };|struct VB { int vb_a; };
b|struct VB { int vb_a };|struct VB { int vb_a; };
b|struct VB { int vb_a : 3; };|struct VB { int vb_a; };
b|struct VB { int vb_f() { return 1; } };|struct VB { int vb_a; };
b|struct VB { int vb_a = 1; };|struct VB { int vb_a; };
b|struct VB { vb_a; };|struct VB { int vb_a; };
b|struct VB { int vb_a; |struct VB { int vb_a; };
b|struct VB { int vb_a; }|struct VB { int vb_a; };
n|enum VE { VE9 };|enum VF { VE9 };
b|enum VF { VE9 = vg };|enum VF { VE9 = 3 };
b|enum VF { VE9 = 1 / 0 };|enum VF { VE9 = 1 / 1 };
b|enum VF { VE9 = 5 % (1 - 1) };|enum VF { VE9 = 5 % (1 + 1) };
b|enum VF { VE9 = vf0(1) };|enum VF { VE9 = 1 };
b|enum VF { VE9 = (1, 2) };|enum VF { VE9 = 1 };
b|enum VF { VE9 = "a" };|enum VF { VE9 = 'a' };
b|enum VF { VE9 = };|enum VF { VE9 };
b|enum VF { 3 };|enum VF { VE9 };
b|enum VF { VE9 VE10 };|enum VF { VE9, VE10 };
b|enum VF { VE9;|enum VF { VE9 };
b|int vf_x() { return 1 }|int vf_x() { return 1; }
b|int vf_x() { return 1; |int vf_x() { return 1; }
b|int vf_x() return 1;|int vf_x() { return 1; }
b|int vf_x(int a, int a) { return a; }|int vf_x(int a, int b) { return a; }
b|int vf_x(int a, int b, int c, int a) { return a; }|int vf_x(int a, int b, int c, int d) { return a; }
s|int vf_x(int a) { int a; a = 1; return a; }|int vf_x(int a) { int b; b = 1; return a; }
b|int vf_x(void, int a) { return a; }|int vf_x(void) { return 1; }
b|int vf_x(int a, void) { return a; }|int vf_x(int a) { return 1; }
b|int vf_x(...) { return 1; }|int vf_x(int a, ...) { return 1; }
b|int vf_x(int a, ..., int b) { return 1; }|int vf_x(int a, ...) { return 1; }
b|int vf_x(int a = 3) { return 1; }|int vf_x(int a) { return 1; }
b|int vf_x(int) { return 1; }|int vf_x(int a) { return 1; }
b|int vf_x(3) { return 1; }|int vf_x(int a) { return 1; }
b|int vf_x(int a { return 1; }|int vf_x(int a) { return 1; }
b|struct VA vf_x() { struct VA *a; a = 0; return *a; }|struct VA *vf_x() { return 0; }
s|int vf_x(struct VA a) { return 1; }|int vf_x(struct VA *a) { return 1; }
b|int vf_x[2]() { return 1; }|int vf_x() { return 1; }
n|int vf0(int a) { return 1; }|int vf9(int a) { return 1; }
b|void vf_x[3];|int vf_x[3];
b|typedef int VA9 = 3;|typedef int VA9;
b|typedef VNONE VA9;|typedef VT VA9;
b|VNONE vf_x;|VT vf_x;
b|VT VT2 vf_x;|VT vf_x;
b|int char vf_x;|char vf_x;
b|int struct VA *vf_x;|struct VA *vf_x;
b|char enum VE vf_x;|enum VE vf_x;
b|int VT vf_x;|VT vf_x;
b|static extern int vf_x;|static int vf_x;
b|typedef static int VX;|typedef int VX;
b|extern int vf_x = 1;|int vf_x = 1;
s|unsigned vf_x;|int vf_x;
s|unsigned char vf_x;|char vf_x;
b|unsigned struct VA *vf_x;|struct VA *vf_x;
b|short char vf_x;|char vf_x;
b|float vf_x;|int vf_x;
b|double vf_x;|int vf_x;
b|int vf_x, ;|int vf_x;
b|int vf_x|int vf_x;
b|int 3;|int vf_x;
b|int *;|int *vf_x;
b|int (*vf_x;|int *vf_x;
b|int vf_x];|int vf_x[3];
b|int vf_x[3;|int vf_x[3];
b|int vf_x = ;|int vf_x = 1;
b|int vf_x = 1 + ;|int vf_x = 1;
b|int vf_x = 1 1;|int vf_x = 1;
b|= 3;|int vf_x;
b|3;|int vf_x;
b|return 3;|int vf_x;
b|if (1) { }|int vf_x;
b|}|int vf_x;
b|)|int vf_x;
b|vf_x = 3;|int vf_x = 3;
s|int __vf_x;|int vf_x;
s|int _vf_x;|int vf_x;
s|int vf_x = &vg;|int vf_x = 1;
b|int vf_x @;|int vf_x;
b|int $vf_x;|int vf_x;
b|int vf_x = 12x;|int vf_x = 12;
b|int vf_x = 019;|int vf_x = 01;
b|int vf_x = 1.5;|int vf_x = 1;
b|char vf_x = 'a;|char vf_x = 'a';
b|char *vf_x = "abc;|char *vf_x = "abc";
b|/*|/* */
n|int vf_x() { return vundef; }|int vf_x() { return vg; }
b|#vf_nothing|#define vf_foo
b|#if|#if 1\n#endif
b|#if 1 +\n#endif|#if 1 + 1\n#endif
b|#if 1 2\n#endif|#if 12\n#endif
b|#if (1\n#endif|#if (1)\n#endif
b|#if 1)\n#endif|#if (1)\n#endif
b|#if 1 / 0\n#endif|#if 1 / 1\n#endif
b|#if 1 % (2 - 2)\n#endif|#if 1 % 2\n#endif
b|#if "a"\n#endif|#if 'a'\n#endif
b|#if 1 = 1\n#endif|#if 1 == 1\n#endif
b|#if vf_m++\n#endif|#if vf_m + 1\n#endif
b|#if vf_m(1)\n#endif|#if vf_m\n#endif
b|#if 1 ? 2\n#endif|#if 1 ? 2 : 3\n#endif
b|#if defined\n#endif|#if defined vf_m\n#endif
b|#if defined(\n#endif|#if defined(vf_m)\n#endif
b|#if defined(vf_m vf_n)\n#endif|#if defined(vf_m)\n#endif
b|#if 0\n#elif 1 +\n#endif|#if 0\n#elif 1\n#endif
b|#if 1|#if 1\n#endif
b|#if 0|#if 0\n#endif
b|#ifdef vf_m|#ifdef vf_m\n#endif
b|#ifndef vf_m|#ifndef vf_m\n#endif
b|#if 0\n#if 1\n#endif|#if 0\n#if 1\n#endif\n#endif
b|#ifdef|#ifdef vf_m\n#endif
b|#endif|#if 1\n#endif
b|#else\n#endif|#if 1\n#else\n#endif
b|#elif 1\n#endif|#if 1\n#elif 1\n#endif
b|#define|#define vf_m
b|#define 3|#define vf_m
b|#define +|#define vf_m
b|#define "a"|#define vf_m
b|#define vf_m ## vf_n|#define vf_m vf_n
b|#define vf_m vf_n ##|#define vf_m vf_n
b|#define VM(a) a\nint vf_x = VM(1|#define VM(a) a\nint vf_x = VM(1);
b|#define VM(a) a\nint vf_x = VM(1, 2);|#define VM(a) a\nint vf_x = VM(1);
b|#define VM(a, b) a + b\nint vf_x = VM(1);|#define VM(a, b) a + b\nint vf_x = VM(1, 2);
b|#define VM(a, b) a + b\nint vf_x = VM((1, 2));|#define VM(a, b) a + b\nint vf_x = VM((1), 2);
b|#define VM(a, b) a##b\nint vf_x = VM(+, 2);|#define VM(a, b) a##b\nint vf_x = VM(1, 2);
b|#define VM(a, b) a##b\nint vf_x = VM(1, "s");|#define VM(a, b) a##b\nint vf_x = VM(1, 2);
b|#define VM(a) #b\nchar *vf_x = VM(1);|#define VM(a) #a\nchar *vf_x = VM(1);
b|#undef|#undef vf_m
b|#undef 3|#undef vf_m
b|#include|#define vf_m
b|#include vf_m|#define vf_m
b|#include 3|#define vf_m
b|#include "vf_missing.h"|#define vf_m
b|#error stop|#define vf_m
b|#if 1\n#error stop\n#endif|#if 0\n#error stop\n#endif
b|#ifndef vf_m\n#error "stop"\n#endif|#ifdef vf_m\n#error "stop"\n#endif
'''


def table(text):
    r = []
    for l in text.strip().split('\n'):
        w, bad, good = l.split('|', 1)[0], *split(l.split('|', 1)[1])
        r.append((w, bad.replace('\\n#', '\n#').replace('\\nint', '\nint').replace('\\nchar', '\nchar'), good.replace('\\n#', '\n#').replace('\\nint', '\nint').replace('\\nchar', '\nchar')))
    return r


def split(l):
    """The separator is a bar that is not an operator: followed by the beginning of a construct, not by a space or a bar or ="""
    i = [k for k, c in enumerate(l) if c == '|' and l[k - 1] not in ' |' and l[k + 1:k + 2] not in (' ', '|', '=')]
    if not i:
        i = [k for k, c in enumerate(l) if c == '|' and l[k - 1] == ' ' and l[k + 1:k + 2] not in (' ', '|', '=')]
    assert len(i) == 1, l
    return l[:i[0]], l[i[0] + 1:]
