from ..typegen import Inits
from . import native_types


def check(ck):
    native_types.check(ck, Inits, 'initialisers', 400, 12000)
