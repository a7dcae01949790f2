from ..calls import Calls
from . import native_types


def check(ck):
    native_types.check(ck, Calls, 'calls', 400, 12000)
