"""Reference models over terms (work symbolically and on constants)."""
from . import term as t
from .term import const, ite


class Queue(object):
    """bounded FIFO of width-w words; symbolic occupancy"""

    def __init__(self, cap, w):
        self.cap = cap
        self.w = w
        self.cw = max(1, cap.bit_length() + 1)
        self.n = const(0, self.cw)
        self.q = [const(0, w) for _ in range(cap)]

    def empty(self):
        return self.n.eq(0)

    def full(self):
        return self.n.eq(self.cap)

    def atleast(self, k):
        return self.n.uge(k) if k >= 0 else t.true()

    def head(self):
        return self.q[0]

    def update(self, push, v, pop):
        """pop before push (both against the pre-state occupancy)"""
        q = [ite(pop, self.q[i + 1] if i + 1 < self.cap else self.q[i], self.q[i]) for i in range(self.cap)]
        n = ite(pop, self.n - 1, self.n)
        q = [ite(t.and_(push, n.eq(i)), v, q[i]) for i in range(self.cap)]
        n = ite(push, n + 1, n)
        self.q, self.n = q, n
