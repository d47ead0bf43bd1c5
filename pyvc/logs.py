"""Dicts of lists or sets that are filled in a loop, kept as the log of what is put in."""
from .values import *


def log_entries(items):
    return any(isinstance(i.v, App) if isinstance(i, E) else isinstance(i, Fold) and any(log_entries(d) for _, d in i.cases) for i in items)


def only_sets(items):
    """a dict of sets, seen as what was put in"""
    return all(isinstance(i, PrevSeg) or (isinstance(i.v, App) and i.v.name in ("set-entry", "add-entry") if isinstance(i, E)
                                          else isinstance(i, Fold) and all(only_sets(d) for _, d in i.cases)) for i in items)
