/* Runs an x86-64 Mach-O executable (static, LC_UNIXTHREAD) on Linux as macOS would: checks its
   load commands, maps its segments, and emulates its system calls, which seccomp traps.
   Exit status 97: the executable is malformed; 96: it makes a system call that macOS does not have. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <ucontext.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <linux/audit.h>

static void bad(const char *m) { dprintf(2, "malformed executable: %s\n", m); _exit(97); }
#define REQ(c) do { if (!(c)) bad(#c); } while (0)

static unsigned char *img;
static uint64_t size;
static uint32_t u32(uint64_t o) { uint32_t x; if (o + 4 > size) bad("read outside the file"); memcpy(&x, img + o, 4); return x; }
static uint64_t u64(uint64_t o) { return u32(o) | (uint64_t)u32(o + 4) << 32; }

static void handler(int sig, siginfo_t *si, void *uc) {
  greg_t *r = ((ucontext_t *)uc)->uc_mcontext.gregs;
  uint64_t nr = r[REG_RAX];
  long a = r[REG_RDI], b = r[REG_RSI], c = r[REG_RDX], d = r[REG_R10], res;
  int fl;
  switch (nr) {
    case 0x2000001: _exit(a & 255);
    case 0x2000003: res = read((int)a, (void *)b, c); break;
    case 0x2000004: res = write((int)a, (void *)b, c); break;
    case 0x2000005:
      fl = b & 3;
      if (b & 0x8) fl |= O_APPEND;
      if (b & 0x200) fl |= O_CREAT;
      if (b & 0x400) fl |= O_TRUNC;
      if (b & ~0x60bL) { dprintf(2, "unknown flags of open: %lx\n", b); _exit(96); }
      res = open((char *)a, fl, (int)c); break;
    case 0x2000006: res = close((int)a); break;
    case 0x20000c7: res = lseek((int)a, b, (int)c); break;
    case 0x200000a: res = unlink((char *)a); break;
    case 0x20000C5:
      if (!(d & 0x1000) || (int)r[REG_R8] != -1) { dprintf(2, "mmap of a file\n"); _exit(96); }
      res = (long)mmap(0, b, (int)c, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); break;
    default: dprintf(2, "system call %lx does not exist\n", (long)nr); _exit(96);
  }
  /* as the syscall instruction and the kernel of macOS do */
  if (res == -1) { r[REG_RAX] = errno; r[REG_EFL] |= 1; } else { r[REG_RAX] = res; r[REG_EFL] &= ~1L; }
  r[REG_RDX] = 0;
  r[REG_RCX] = r[REG_RIP];
  r[REG_R11] = r[REG_EFL];
}

int main(int argc, char **argv) {
  struct stat st;
  int f = open(argv[1], O_RDONLY);
  if (f < 0 || fstat(f, &st)) bad("cannot be opened");
  size = st.st_size;
  img = malloc(size + 1);
  REQ(read(f, img, size) == (ssize_t)size);
  close(f);
  REQ(size >= 4096);
  REQ(u32(0) == 0xfeedfacf); REQ(u32(4) == 0x01000007); REQ((u32(8) & 0xffffff) == 3); REQ(u32(12) == 2);
  uint32_t n = u32(16), total = u32(20), sum = 0;
  uint64_t o = 32, rip = 0, code = 0, codeend = 0, pagezero = 0, fileend = 0;
  REQ(total + 32 <= size);
  for (uint32_t i = 0; i < n; i++) {
    uint32_t cmd = u32(o), len = u32(o + 4);
    REQ(len >= 8); REQ(len % 8 == 0); sum += len; REQ(sum <= total);
    if (cmd == 0x19) {
      uint64_t va = u64(o + 24), vs = u64(o + 32), fo = u64(o + 40), fs = u64(o + 48);
      uint32_t prot = u32(o + 60);
      REQ(len == 72 + u32(o + 64) * 80);
      REQ(va % 4096 == 0); REQ(fo % 4096 == 0); REQ(fs <= vs || fs == 0); REQ(fo + fs <= size); REQ((prot & ~u32(o + 56)) == 0);
      if (prot == 0) { REQ(fs == 0 && va == 0); pagezero = vs; }
      else {
        REQ(va >= pagezero);
        if (fo + fs > fileend) fileend = fo + fs;
        uint64_t ms = (vs + 4095) & ~4095ULL;
        unsigned char *p = mmap((void *)va, ms, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (unsigned char *)va) bad("segment not mapped");
        /* the pages of the file, whole, as long as the file has them */
        uint64_t cs = (fs + 4095) & ~4095ULL;
        if (fo + cs > size) cs = size - fo;
        memcpy(p, img + fo, cs);
        /* a strict loader gives only what the command says */
        if (fs < cs) memset(p + fs, 0xcc, cs - fs);
        mprotect(p, ms, ((prot & 1) ? PROT_READ : 0) | ((prot & 2) ? PROT_WRITE : 0) | ((prot & 4) ? PROT_EXEC : 0));
        if (prot & 4) { code = va; codeend = va + vs; if (fo == 0) REQ(total + 32 <= fs); }
      }
    } else if (cmd == 5) {
      REQ(u32(o + 8) == 4); REQ(u32(o + 12) == 42); REQ(len == 16 + 42 * 4);
      rip = u64(o + 16 + 16 * 8);
    } else bad("unknown load command");
    o += len;
  }
  for (uint64_t i = fileend; i < size; i++) REQ(img[i] == 0); /* only padding after the segments */
  REQ(sum == total); REQ(pagezero >= 1ULL << 32); REQ(code != 0); REQ(rip >= code + 32 + total && rip < codeend);

  /* the stack: argc, arguments, 0, environment, 0 */
  uint64_t ss = 8 << 20;
  char *stack = mmap(0, ss, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  char *top = stack + ss - 64;
  uint64_t ptr[4096];
  int k = 0;
  REQ(argc < 4000);
  ptr[k++] = argc - 1;
  for (int i = 1; i < argc; i++) { size_t l = strlen(argv[i]) + 1; top -= l; memcpy(top, argv[i], l); ptr[k++] = (uint64_t)top; }
  ptr[k++] = 0; ptr[k++] = 0; ptr[k++] = 0;
  top = (char *)(((uint64_t)top - k * 8) & ~15ULL);
  memcpy(top, ptr, k * 8);

  stack_t alt = { .ss_sp = malloc(65536), .ss_size = 65536 };
  sigaltstack(&alt, 0);
  struct sigaction sa = { .sa_sigaction = handler, .sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER };
  sigaction(SIGSYS, &sa, 0);
  prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
  struct sock_filter flt[] = {
    BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4),
    BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)(code >> 32), 1, 0),
    BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
    BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP),
  };
  struct sock_fprog prog = { 4, flt };
  if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog)) { dprintf(2, "seccomp: %s\n", strerror(errno)); _exit(95); }
  __asm__ volatile(
    "mov %0, %%rsp\n mov %1, %%rax\n push %%rax\n"
    "xor %%eax,%%eax\n xor %%ebx,%%ebx\n xor %%ecx,%%ecx\n xor %%edx,%%edx\n xor %%esi,%%esi\n xor %%edi,%%edi\n xor %%ebp,%%ebp\n"
    "xor %%r8d,%%r8d\n xor %%r9d,%%r9d\n xor %%r10d,%%r10d\n xor %%r11d,%%r11d\n xor %%r12d,%%r12d\n xor %%r13d,%%r13d\n xor %%r14d,%%r14d\n xor %%r15d,%%r15d\n"
    "ret\n" :: "r"(top), "r"(rip) : "memory");
  return 0;
}
