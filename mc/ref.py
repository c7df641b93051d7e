"""Reference models: plain, slow, obvious"""
import math

import numpy as np


def poly_energy(coeffs, x):
    """coeffs: {(i, j, ...): c} or MB"""
    if isinstance(coeffs, MB):
        return coeffs.energy(x)
    return sum(c * math.prod(x[d] ** e for d, e in enumerate(k)) for k, c in coeffs.items())


def poly_force(coeffs, x):
    if isinstance(coeffs, MB):
        return coeffs.force(x)
    f = []
    for d in range(len(x)):
        s = 0.0
        for k, c in coeffs.items():
            if k[d] > 0:
                t = c * k[d] * x[d] ** (k[d] - 1)
                for o, e in enumerate(k):
                    if o != d:
                        t *= x[o] ** e
                s += t
        f.append(-s)
    return f


def kernel(dx, bw):
    """Normalised Gaussian, dx and bw per dimension"""
    r = 1.0
    for d, s in zip(dx, bw):
        r *= math.exp(-d * d / (2 * s * s)) / (math.sqrt(2 * math.pi) * s)
    return r


def kde(positions, bw):
    n = len(positions)
    return [
        sum(kernel([a - b for a, b in zip(x, y)], bw) for y in positions) / n
        for x in positions
    ]


def rates_original(positions, energies, bw, kt):
    b = [math.log(r) + e / kt for r, e in zip(kde(positions, bw), energies)]
    m = sum(b) / len(b)
    return [x - m for x in b]


def bd_step(labels, rate_of, prob_of, rng, recalc):
    """One birth-death step on a list of labels

    :param rate_of: function(labels) -> rates
    :param prob_of: function(rate) -> probability
    :return: (new labels, events [(copied, overwritten)], counters)
    """
    n = len(labels)
    labels = list(labels)
    rates = rate_of(tuple(labels))
    events = []
    cnt = dict(dup=0, kill=0, dup_att=0, kill_att=0)
    u = [rng.random() for _ in range(n)]

    def other(i):
        j = int(rng.integers(n - 1))
        return j + 1 if j >= i else j

    def event(i, rate):
        j = other(i)
        if rate > 0:
            cnt["kill"] += 1
            return (j, i)
        cnt["dup"] += 1
        return (i, j)

    if not recalc:
        for r in rates:
            cnt["kill_att" if r > 0 else "dup_att"] += 1
        cand = [i for i in range(n) if u[i] <= prob_of(rates[i])]
        gone = set()
        for k in rng.permutation(len(cand)) if cand else []:
            i = cand[int(k)]
            if i in gone:
                continue
            ev = event(i, rates[i])
            events.append(ev)
            gone.add(ev[1])
        for c, o in events:
            labels[o] = labels[c]
    else:
        for i in rng.permutation(n):
            i = int(i)
            if rates[i] > 0:
                cnt["kill_att"] += 1
            elif rates[i] < 0:
                cnt["dup_att"] += 1
            if u[i] <= prob_of(rates[i]):
                ev = event(i, rates[i])
                events.append(ev)
                labels[ev[1]] = labels[ev[0]]
                rates = rate_of(tuple(labels))
    return labels, events, cnt


MB_TERMS = (
    (-200.0, -1.0, 0.0, -10.0, 1.0, 0.0),
    (-100.0, -1.0, 0.0, -10.0, 0.0, 0.5),
    (None, -6.5, 11.0, -6.5, -0.5, 1.5),
    (15.0, 0.7, 0.6, 0.7, -1.0, 1.0),
)


class MB:
    """Mueller-Brown; the third amplitude and the constant are those of the program (they are the subject of C06)"""

    def __init__(self, scale=1.0, energy=None):
        """:param energy: energy function of the program"""
        self.scale, self.third, self.shift = scale, -175.0, 0.0
        if energy is not None:
            a, b = [-0.5, 1.5], [1.0, 0.0]
            seen = [float(energy(a)), float(energy(b))]

            def miss(third):
                self.third = third
                return abs(self.energy(a) - self.energy(b) - seen[0] + seen[1])

            self.third = min((-175.0, -170.0), key=miss)
            self.shift = seen[0] - self.energy(a)

    def energy(self, pos):
        x, y = pos
        s = self.shift
        for A, a, b, c, x0, y0 in MB_TERMS:
            s = s + self.scale * (self.third if A is None else A) * np.exp(a * (x - x0) ** 2 + b * (x - x0) * (y - y0) + c * (y - y0) ** 2)
        return s

    def force(self, pos):
        x, y = pos
        fx = fy = 0.0
        for A, a, b, c, x0, y0 in MB_TERMS:
            dx, dy = x - x0, y - y0
            t = self.scale * (self.third if A is None else A) * math.exp(a * dx * dx + b * dx * dy + c * dy * dy)
            fx -= t * (2 * a * dx + b * dy)
            fy -= t * (b * dx + 2 * c * dy)
        return [fx, fy]
