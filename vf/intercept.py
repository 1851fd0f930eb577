"""Interposes on public functions of ssspy wherever a module of the package holds them."""

import sys
from contextlib import contextmanager


@contextmanager
def interpose(wrappers):
    """wrappers: {function object: wrapped function}.  Restores everything afterwards."""
    done = []
    try:
        for name, mod in list(sys.modules.items()):
            if not (name == "ssspy" or name.startswith("ssspy.")) or mod is None:
                continue
            for attr, val in list(vars(mod).items()):
                try:
                    w = wrappers.get(val)
                except TypeError:
                    continue
                if w is not None:
                    setattr(mod, attr, w)
                    done.append((mod, attr, val))
        yield
    finally:
        for mod, attr, val in done:
            setattr(mod, attr, val)
