"""Stub of copy for values that may be symbolic."""


def copy(x):
    if isinstance(x, list):
        return list(x)
    if isinstance(x, dict):
        return dict(x)
    if isinstance(x, set):
        return set(x)
    return _ENV.shallow_copy(x)


def deepcopy(x):
    return _ENV.deep_copy(x)
