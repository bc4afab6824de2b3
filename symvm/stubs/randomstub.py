"""Stub of the random module: every draw is an arbitrary choice."""


def choice(seq):
    return _ENV.pick(seq)


def randint(a, b):
    return _ENV.draw_int(a, b)


def randrange(a, b=None):
    if b is None:
        return _ENV.draw_int(0, a - 1)
    return _ENV.draw_int(a, b - 1)


def random():
    return _ENV.draw_real()


def uniform(a, b):
    return a + (b - a) * _ENV.draw_real()


def sample(population, k):
    rest = list(population)
    out = []
    for _ in range(k):
        i = _ENV.draw_int(0, len(rest) - 1)
        out.append(rest[i])
        rest.pop(i)
    return out


def shuffle(x):
    out = sample(x, len(x))
    for i in range(len(out)):
        x[i] = out[i]


def choices(population, weights=None, k=1):
    return [_ENV.pick(population) for _ in range(k)]


def seed(s=None):
    return None


class Random:
    def __init__(self, seed=None):
        self.seed_ = seed

    def choice(self, seq):
        return _ENV.pick(seq)

    def randint(self, a, b):
        return _ENV.draw_int(a, b)

    def randrange(self, a, b=None):
        return randrange(a, b)

    def random(self):
        return _ENV.draw_real()

    def uniform(self, a, b):
        return uniform(a, b)

    def sample(self, population, k):
        return sample(population, k)

    def shuffle(self, x):
        return shuffle(x)

    def choices(self, population, weights=None, k=1):
        return choices(population, weights, k)

    def seed(self, s=None):
        return None


def __getattr__(name):
    return _ENV.missing("randomstub", name)
