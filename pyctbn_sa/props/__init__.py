"""Obligations per property."""
REG = {}


def prop(pid, title=None):
    def deco(f):
        REG.setdefault(pid, []).append((title or f.__name__, f))
        return f
    return deco
