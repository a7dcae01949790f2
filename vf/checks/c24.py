from ..flow import Flow
from . import native_types


def check(ck):
    native_types.check(ck, Flow, 'control flow', 400, 12000)
