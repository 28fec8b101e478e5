from .base import KINDS, OPS, MUTS          # noqa


def load():
    from . import c_misc, c_sea, c_num, c_stat, c_more, c_edge    # noqa
    return KINDS, OPS, MUTS
