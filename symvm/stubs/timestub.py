"""Stub of the time module: the harness decides what the clock shows."""


def time():
    return _ENV.clock()


def perf_counter():
    return _ENV.clock()


def monotonic():
    return _ENV.clock()


def process_time():
    return _ENV.clock()


def sleep(s):
    return None


def __getattr__(name):
    return _ENV.missing("timestub", name)
