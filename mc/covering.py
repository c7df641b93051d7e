"""Covering arrays: a deterministic list of configurations in which every combination of `t` settings occurs

Every check combines many settings (sizes, strides, kinds). Their full product is too large; here every t-tuple of values that the
constraints allow together is met by at least one configuration.
"""
import itertools
import random


def covering(factors, t=2, ok=lambda c: True, seed=1, tries=6):
    """factors: name -> list of values (indices are handled, the values need not be hashable); ok: constraint on a complete configuration"""
    rng = random.Random(seed)
    names = sorted(factors, key=lambda k: (-len(factors[k]), k))
    size = {k: len(factors[k]) for k in names}
    combos = list(itertools.combinations(names, t))
    todo = {
        tuple(zip(c, v)) for c in combos for v in itertools.product(*(range(size[k]) for k in c))
    }
    order = sorted(todo)
    by_name = {k: [c for c in combos if k in c] for k in names}
    rows = []

    def value(row):
        return {k: factors[k][i] for k, i in row.items()}

    def gain(row, k):
        """uncovered combinations of k with what is set in the row"""
        g = 0
        for c in by_name[k]:
            if all(x in row for x in c):
                g += tuple((x, row[x]) for x in c) in todo
        return g

    def complete(start):
        row = dict(start)
        rest = [k for k in names if k not in row]
        rng.shuffle(rest)
        for k in rest:
            best = []
            for i in range(size[k]):
                row[k] = i
                g = gain(row, k)
                if not best or g > best[0][0]:
                    best = [(g, i)]
                elif g == best[0][0]:
                    best.append((g, i))
            row[k] = rng.choice(best)[1]
        return row

    for start in order:
        if start not in todo:
            continue
        best = None
        for attempt in range(tries):
            row = complete(start)
            if not ok(value(row)):
                continue
            n = sum(tuple((x, row[x]) for x in c) in todo for c in combos)
            if best is None or n > best[0]:
                best = (n, row)
        if best is None:  # by chance
            for attempt in range(60):
                row = dict(start)
                for k in names:
                    row.setdefault(k, rng.randrange(size[k]))
                if ok(value(row)):
                    best = (1, row)
                    break
        if best is None:
            todo.discard(start)  # not allowed together
            continue
        row = best[1]
        for c in combos:
            todo.discard(tuple((x, row[x]) for x in c))
        rows.append(value(row))
    return rows
