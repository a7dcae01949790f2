from ..typegen import Decls
from . import native_types


def check(ck):
    native_types.check(ck, Decls, 'declarators', 400, 12000)
