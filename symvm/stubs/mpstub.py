"""Stub of multiprocessing: nothing may be run in parallel here."""


class Pool:
    def __init__(self, processes=None):
        self.processes = processes

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        return False

    def map(self, f, items):
        return [f(x) for x in items]

    def starmap(self, f, items):
        return [f(*x) for x in items]

    def close(self):
        return None

    def join(self):
        return None


def cpu_count():
    return 1


def __getattr__(name):
    return _ENV.missing("mpstub", name)
