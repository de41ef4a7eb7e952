"""Small shared pieces: schedules, device models."""
from collections import deque


def markov_bits(rng, n, p_on=None, p_off=None, start=None):
    """n bits that switch on with p_on and off with p_off per cycle (drawn if not given)."""
    if p_on is None:
        p_on = rng.choice([0.02, 0.1, 0.3, 0.5, 0.8, 1.0])
    if p_off is None:
        p_off = rng.choice([0.0, 0.02, 0.1, 0.3, 0.5, 0.8, 1.0])
    b = rng.random() < 0.5 if start is None else start
    out = []
    for _ in range(n):
        b = (rng.random() >= p_off) if b else (rng.random() < p_on)
        out.append(1 if b else 0)
    return out


def rle_schedule(rng, n, p_one=None, maxlen=None):
    """A ready/valid style schedule as a list of [level, length]; after its end the level is 1."""
    if p_one is None:
        p_one = rng.choice([0.1, 0.3, 0.5, 0.7, 0.9, 1.0])
    if maxlen is None:
        maxlen = rng.choice([1, 2, 3, 8, 30])
    out = []
    for _ in range(n):
        out.append([1 if rng.random() < p_one else 0, rng.randint(1, maxlen)])
    return out


class Sched:
    """Plays a schedule made by rle_schedule, then `default` for ever."""
    def __init__(self, rle, default=1):
        self.rle, self.i, self.k, self.default = rle, 0, 0, default

    @property
    def done(self):
        return self.i >= len(self.rle)

    def next(self):
        while self.i < len(self.rle) and self.k >= self.rle[self.i][1]:
            self.i, self.k = self.i + 1, 0
        if self.i >= len(self.rle):
            return self.default
        self.k += 1
        return self.rle[self.i][0]


def bits_to_int(bs):
    return sum(b << i for i, b in enumerate(bs))
