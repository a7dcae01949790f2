"""C04: i386 executables behave as C says."""
from . import native_common


def check(ck):
    native_common.check(ck, 'i386')
