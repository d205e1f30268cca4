"""A pseudo-random generator whose draws are inputs of the harness (arbitrary values of their type).
Two generators with the same seed draw the same values."""


class RandomCore(object):
    def __init__(self, h, seed=None):
        self._h = h
        self._count = 0
        self._setseed(seed)

    def _setseed(self, seed):
        st = self._h.rnd_state
        known = st.setdefault('seeds', [])
        self._count = 0
        if seed is not None:
            for other, i in known:
                # a symbolic seed may or may not be one that was used before
                if isinstance(other, str) == isinstance(seed, str) and other == seed:
                    self._id = i
                    return
        self._id = len(known)
        known.append((seed if seed is not None else object(), self._id))

    def seed(self, a=None, version=2):
        self._setseed(a)

    def _name(self, kind):
        self._count += 1
        return 'rnd%d.%d.%s' % (self._id, self._count, kind)

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        for x in (start, stop, step):
            if isinstance(x, float) or type(x).__name__ == 'SymReal':
                raise TypeError("'float' object cannot be interpreted as an integer")
        start, stop, step = int(start), int(stop), int(step)
        n = len(range(start, stop, step))
        if n <= 0:
            raise ValueError('empty range for randrange')
        if n > 64:
            # wide ranges are only used to derive seeds: any value will do, keep it symbolic
            return start + step * self._h.int(self._name('wide%d' % n), 0, n - 1)
        return start + step * self._h.int(self._name('r%d' % n), 0, n - 1)

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def getrandbits(self, k):
        return self.randrange(0, 1 << int(k))

    def random(self):
        return self._h.real(self._name('f'), 0, 15, 16)

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def choice(self, seq):
        if not len(seq):
            raise IndexError('Cannot choose from an empty sequence')
        return seq[self._h.int(self._name('c%d' % len(seq)), 0, len(seq) - 1)]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        return [self.choice(population) for _ in range(k)]

    def shuffle(self, x):
        for i in reversed(range(1, len(x))):
            j = int(self._h.int(self._name('s%d' % i), 0, i))
            x[i], x[j] = x[j], x[i]

    def sample(self, population, k, *, counts=None):
        pool = list(population)
        if k > len(pool):
            raise ValueError('Sample larger than population or is negative')
        out = []
        for _ in range(k):
            out.append(pool.pop(int(self._h.int(self._name('p%d' % len(pool)), 0, len(pool) - 1))))
        return out


def the_global(h):
    """the generator behind the functions of module random, one per run"""
    st = h.rnd_state
    if 'global' not in st:
        st['global'] = RandomCore(h, 'global')
    return st['global']
