"""Thresholds for statistical verdicts: false alarms below about 1e-9 each."""
import math


def binom_ok(k, n, p, eps=1e-10):
    """Is k of n plausible for probability p? (exact tails, two-sided)"""
    if p <= 0:
        return k == 0
    if p >= 1:
        return k == n
    if n == 0:
        return True
    mean = n * p
    # Chernoff bound on the tail that k lies in
    q = k / n
    if (k - mean) == 0:
        return True
    d = 0.0
    if q > 0:
        d += q * math.log(q / p)
    if q < 1:
        d += (1 - q) * math.log((1 - q) / (1 - p))
    return n * d < -math.log(eps)


class Bias:
    """Observed minus expected occurrences of an event, over many experiments."""

    def __init__(self):
        self.acc = {}

    def add(self, event, hits, n, p):
        a = self.acc.setdefault(event, [0.0, 0.0, 0])
        a[0] += hits - n * p
        a[1] += n * p * (1 - p)
        a[2] += n

    def bad(self, sigma=7.0):
        """[(event, standard deviations, draws)] of events that are off"""
        return [(e, round(d / v ** .5, 1), n) for e, (d, v, n) in sorted(self.acc.items(), key=repr)
                if v > 25 and abs(d) > sigma * v ** .5 + 1]
