"""
The matching library seam.

`max_weight_matching` hands its result back in a hash set seeded from the operating system: both the
order of the pairs and the orientation of every pair change from one process to the next.  Here the
real matching runs, and the simulator decides order and orientation.
"""
import random

import rustworkx

ORDER = None  # None: sorted pairs; otherwise a random.Random that shuffles and flips
CALLS = 0
real = rustworkx.max_weight_matching  # untouched


class Pairs(set):
    """A set with a chosen iteration order."""

    def __init__(self, pairs):
        super().__init__(pairs)
        self._order = list(pairs)

    def __iter__(self):
        return iter(self._order)


def install():
    import retworkx

    if getattr(rustworkx.max_weight_matching, "_dst", False):
        return

    def max_weight_matching(*a, **k):
        global CALLS
        CALLS += 1
        pairs = sorted(tuple(sorted(p)) for p in real(*a, **k))
        if ORDER is not None:
            ORDER.shuffle(pairs)
            pairs = [p if ORDER.random() < 0.5 else p[::-1] for p in pairs]
        return Pairs(pairs)

    max_weight_matching._dst = True
    rustworkx.max_weight_matching = max_weight_matching
    retworkx.max_weight_matching = max_weight_matching


class shuffled:
    """with shuffled(seed): the matching library's results come in an adversarial order."""

    def __init__(self, seed):
        self.seed = seed

    def __enter__(self):
        global ORDER
        self.old = ORDER
        ORDER = None if self.seed is None else random.Random(self.seed)

    def __exit__(self, *a):
        global ORDER
        ORDER = self.old
        return False
