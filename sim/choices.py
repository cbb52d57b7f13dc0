"""Recorded choices: every random decision of a simulated run is one draw() on this object.

A run is a pure function of (code, recorded choice list).  The value 0 is always the simplest
alternative (no fault, no preemption, smallest workload), so that a shrunk list reads as a small run.
"""

import hashlib
import random


def derive(*parts):
    """A 64-bit integer derived from the parts, independent of PYTHONHASHSEED."""
    text = '\x1f'.join(str(part) for part in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], 'big')


class Exhausted(BaseException):
    """A shrunk list of choices lets the workload draw without end: it is no run."""


class Choices:

    def __init__(self, seed=None, prefix=None):
        self.rng = random.Random(seed) if prefix is None else None
        self.prefix = prefix
        self.record = []

    def draw(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        if self.rng is not None:
            value = self.rng.randrange(n)
        else:
            i = len(self.record)
            value = self.prefix[i] if i < len(self.prefix) else 0
            if i > len(self.prefix) + 100000:
                raise Exhausted()
            if value >= n:
                value = n - 1
            elif value < 0:
                value = 0
        self.record.append(value)
        return value

    def int(self, low, high):
        """An integer in [low, high]."""
        return low + self.draw(high - low + 1)

    def chance(self, percent):
        """True with the given probability; False is the simple case."""
        return self.draw(100) >= 100 - percent

    def pick(self, sequence):
        return sequence[self.draw(len(sequence))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first one is the simple case."""
        total = sum(weight for weight, _ in pairs)
        x = self.draw(total)
        for weight, value in pairs:
            if x < weight:
                return value
            x -= weight
        return pairs[-1][1]

    def subset(self, sequence, percent=50):
        return [x for x in sequence if self.chance(percent)]

    def shuffle(self, sequence):
        items = list(sequence)
        for i in range(len(items) - 1):
            j = i + self.draw(len(items) - i)
            items[i], items[j] = items[j], items[i]
        return items

    def decimal(self, low, high, digits=2):
        """A decimal number having at most *digits* digits, as a float."""
        scale = 10 ** digits
        value = self.int(0, int(round((high - low) * scale)))
        return round(low + value / scale, digits)
