"""Stand-ins for the environment of the code under test, usable in symbolic and concrete runs."""


import os as _os


def same(files, name):
    """the stored name of the same file, however it is written"""
    if name in files:
        return name
    for f in files:
        if _os.path.abspath(str(f)) == _os.path.abspath(str(name)):
            return f
    return name


class Obj(object):
    def __init__(self, **k):
        self.__dict__.update(k)


class Cosmo(object):
    """angular diameter distance: an arbitrary positive increasing function of both redshifts"""
    def Da(self, z0, z1):
        return 64 + 16 * (z1 - z0) + z0 * z0


class ZStr(object):
    """red-sequence stand-in with values chosen by the harness"""
    def __init__(self, c, **k):
        self.c = c
        self.__dict__.update(k)
        self.calls = []

    def calculate_chisq(self, gals, z, **k):
        self.calls.append((gals, z, k))
        return self.chisq_of(gals, z)

    def zindex(self, z):
        return 1

    def lumrefmagindex(self, m):
        self.normmag = m
        return 2

    def mstar(self, z):
        return self.m0 + 4 * z


def silent_logger():
    import logging
    lg = logging.getLogger('verif_silent')
    lg.disabled = True
    return lg


def refuse(e):
    """raise e as the library that the stand-in replaces would"""
    e.deliberate = True
    raise e
