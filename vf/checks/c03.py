"""C03: x86-64 executables behave as C says."""
from . import native_common


def check(ck):
    native_common.check(ck, 'x86_64')
