from ..typegen import Layout
from . import native_types


def check(ck):
    native_types.check(ck, Layout, 'layout', 400, 12000)
