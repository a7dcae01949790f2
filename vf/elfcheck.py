"""A strict reading of the executables for Linux: everything the kernel uses must be consistent with the bytes of the file."""
import struct

ARCH = {'i386': (1, 3, 0x34, 0x20), 'x86_64': (2, 0x3e, 0x40, 0x38)}


def check(b, arch):
    """Returns (list of problems, entry offset)"""
    pr = []
    cls, mach, ehsize, phsize = ARCH[arch]

    def want(name, got, exp):
        if got != exp:
            pr.append('%s is %#x, expected %#x' % (name, got, exp))
    if len(b) < ehsize + phsize:
        return ['the file has only %d bytes' % len(b)], 0
    if b[:4] != b'\x7fELF':
        return ['the magic number is %r' % b[:4]], 0
    want('EI_CLASS', b[4], cls)
    want('EI_DATA', b[5], 1)
    want('EI_VERSION', b[6], 1)
    if b[7] not in (0, 3):
        pr.append('EI_OSABI is %d' % b[7])
    if any(b[8:16]):
        pr.append('padding of e_ident is not zero')
    if cls == 1:
        f = struct.unpack_from('<HHIIIIIHHHHHH', b, 16)
    else:
        f = struct.unpack_from('<HHIQQQIHHHHHH', b, 16)
    typ, machine, version, entry, phoff, shoff, flags, ehs, phs, phn, shs, shn, shstr = f
    want('e_type', typ, 2)
    want('e_machine', machine, mach)
    want('e_version', version, 1)
    want('e_ehsize', ehs, ehsize)
    want('e_phentsize', phs, phsize)
    if phoff < ehsize or phoff + phn * phsize > len(b) or phn == 0 or phoff % 4:
        return pr + ['program headers at %#x, %d of them' % (phoff, phn)], 0
    if shoff or shn:
        if shoff + shn * shs > len(b) or shstr >= max(shn, 1):
            pr.append('section headers outside of the file')
    loads = []
    for i in range(phn):
        o = phoff + i * phsize
        if cls == 1:
            ptype, off, va, pa, fsz, msz, fl, al = struct.unpack_from('<IIIIIIII', b, o)
        else:
            ptype, fl, off, va, pa, fsz, msz, al = struct.unpack_from('<IIQQQQQQ', b, o)
        if ptype != 1:
            continue
        loads.append((va, msz, off, fsz, fl))
        if al & (al - 1) or al < 0x1000:
            pr.append('alignment %#x' % al)
        elif va % al != off % al:
            pr.append('virtual address %#x and offset %#x differ modulo %#x' % (va, off, al))
        if fsz > msz:
            pr.append('file size %#x larger than memory size %#x' % (fsz, msz))
        if off + fsz > len(b):
            pr.append('segment ends at %#x of a file of %#x bytes' % (off + fsz, len(b)))
        if fl & 2 and fl & 1:
            pr.append('a segment is writable and executable')
        if fl & ~7:
            pr.append('segment flags %#x' % fl)
        if va < 0x10000:
            pr.append('segment at %#x' % va)
        if va + msz > (0xc0000000 if cls == 1 else 0x7fff00000000):
            pr.append('segment outside of the user address space')
    if not loads:
        return pr + ['no loadable segment'], 0
    end = max(o + s for _, _, o, s, _ in loads)
    if max(end, phoff + phn * phsize, shoff + shn * shs) != len(b):
        pr.append('the file has %d bytes, its segments end at %d' % (len(b), end))
    ent = [(va, off) for va, msz, off, fsz, fl in loads if va <= entry < va + fsz and fl & 1]
    if not ent:
        return pr + ['the entry point %#x is not in an executable segment' % entry], 0
    eo = entry - ent[0][0] + ent[0][1]
    if eo < phoff + phn * phsize:
        pr.append('the entry point is in the headers')
    return pr, eo
