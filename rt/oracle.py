"""Independent model of the documented behaviour: traps resolved in depth, readout transfer by transfer.

Nothing here is taken from the implementation: no watermark arrays, no array kernels.  A trap group's state is a list of
boundaries 0 < b1 < b2 < ... (depths) with the fill fraction of every species in each interval."""
import math


class Species:
    def __init__(self, density, tau_r, tau_c=0.0):
        self.density, self.tau_r, self.tau_c = density, tau_r, tau_c


def volume(n, full, notch, power):
    if n == 0:
        return 0.0
    x = (n - notch) / (full - notch)
    x = 0.0 if x < 0 else 1.0 if x > 1 else x
    return x ** power


def probabilities(s, t):
    """(empty->full, full->full, full->full by release alone)"""
    e = 1.0 / s.tau_r
    rel = math.exp(-t * e)
    if s.tau_c == 0:
        return 1.0, 1.0, rel
    c = 1.0 / s.tau_c
    k = -math.expm1(-(c + e) * t) / (c + e)
    return c * k, 1.0 - e * k, rel


class Depths:
    """One trap group in one phase."""

    def __init__(self, species):
        self.s = species
        self.b = []          # boundaries
        self.f = []          # fills[interval][species]

    def copy(self):
        d = Depths(self.s)
        d.b = list(self.b)
        d.f = [list(x) for x in self.f]
        return d

    def empty(self):
        self.b, self.f = [], []

    @property
    def top(self):
        return self.b[-1] if self.b else 0.0

    def held(self):
        lo, tot = 0.0, 0.0
        for b, f in zip(self.b, self.f):
            tot += (b - lo) * sum(x * s.density for x, s in zip(f, self.s))
            lo = b
        return tot

    def at(self, h):
        for b, f in zip(self.b, self.f):
            if h <= b:
                return f
        return [0.0] * len(self.s)

    def split(self, v):
        """make v a boundary (extending with empty traps if above the top)"""
        if v <= 0 or v in self.b:
            return
        for i, b in enumerate(self.b):
            if v < b:
                self.b.insert(i, v)
                self.f.insert(i, list(self.f[i]))
                return
        self.b.append(v)
        self.f.append([0.0] * len(self.s))

    def _limit(self, before, n_available, held_before):
        """Not enough electrons: scale the changes. `before` has the same intervals."""
        gain = self.held() - held_before
        if gain <= max(n_available, 0.0):
            return
        w = max(n_available, 0.0) / gain
        # completely filled levels at the bottom have merged into one
        k = 0
        while k < len(self.f) and all(x == 1.0 for x in self.f[k]):
            k += 1
        if k > 1:
            vol = self.b[k - 1]
            lo, avg = 0.0, [0.0] * len(self.s)
            for b, f in zip(self.b[:k], before.f[:k]):
                avg = [a + (b - lo) / vol * x for a, x in zip(avg, f)]
                lo = b
            for i in range(k):
                before.f[i] = list(avg)
        for i in range(len(self.f)):
            self.f[i] = [w * x + (1 - w) * y for x, y in zip(self.f[i], before.f[i])]

    def update_slow(self, n, vol, t):
        """combined release and capture (net released electrons)"""
        held0 = self.held()
        p = [probabilities(s, t) for s in self.s]
        v = vol(n)
        n_tot = n
        before = self.copy()
        if self.b and v <= self.top:
            self.split(v)
            before.split(v)
            for i, b in enumerate(self.b):
                if b > v:
                    self.f[i] = [x * q[2] for x, q in zip(self.f[i], p)]
            n_tot = n + held0 - self.held()
            v = vol(n_tot)
        self.split(v)
        before.split(v)
        for i, b in enumerate(self.b):
            if b <= v:
                self.f[i] = [x * q[1] + (1 - x) * q[0] for x, q in zip(self.f[i], p)]
        self._limit(before, n, held0)
        return held0 - self.held()

    def update_instant(self, n, vol, t):
        """release, then instant capture (net released electrons)"""
        held0 = self.held()
        for i in range(len(self.f)):
            self.f[i] = [x * math.exp(-t / s.tau_r) for x, s in zip(self.f[i], self.s)]
        held1 = self.held()
        n = n + held0 - held1
        v = vol(n)
        self.split(v)
        before = self.copy()
        for i, b in enumerate(self.b):
            if b <= v:
                self.f[i] = [1.0] * len(self.s)
        self._limit(before, n, held1)
        return held0 - self.held()
