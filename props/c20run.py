"""Run-time half of C20: whole histories against a reference of half-space trees over the splits the trees were built with."""
import numpy as np


class Rec(np.random.RandomState):
    """records its draws"""
    def __init__(self, seed):
        super().__init__(seed)
        self.log = []

    def uniform(self, *a, **k):
        r = super().uniform(*a, **k)
        self.log += [('u', float(v)) for v in np.ravel(r)]
        return r

    def randint(self, *a, **k):
        r = super().randint(*a, **k)
        self.log += [('i', int(v)) for v in np.ravel(r)]
        return r


def cases(rnd, hints, tier):
    while True:
        d = rnd.choice([2, 2, 3, 3, 4, 5]) if rnd.random() < .97 else 1
        ops = []
        for _ in range(rnd.randint(1, 14)):
            X = [[rnd.choice([0.0, 0.5, 1.0, rnd.random(), rnd.random(), rnd.uniform(-3, 4)]) for _ in range(d)] for _ in range(rnd.choice([1, 1, 2, 5, 12]))]
            ops.append([rnd.choice(['fit', 'fit', 'fit', 'predict', 'proba', 'reset'] if rnd.random() < .15 else ['fit', 'fit', 'predict', 'proba']), X])
        yield dict(d=d, w=rnd.choice([1, 2, 3, 5, 8, 20]), depth=rnd.randint(1, 5), M=rnd.randint(1, 4), limit=rnd.choice([0, 1, 2, 5, 50]), th=rnd.choice([0.5, 0.9, 0.3, 0.97]), seed=rnd.randint(0, 9999), rec=rnd.random() < .6, ops=ops)


class N:
    def __init__(self, o):
        self.attr, self.cut, self.depth, self.l, self.r = o.split_attribute, o.split_value, o.depth, 0, 0
        self.kids = None if o.left is None else (N(o.left), N(o.right))


def structure(o, maxd, d, depth=1):
    if o.depth != depth:
        return 'node depth %r at depth %d' % (o.depth, depth)
    if (o.left is None) != (o.right is None) or (o.left is None) != (depth == maxd):
        return 'the tree is not full: depth %d of %d' % (depth, maxd)
    if o.left is None:
        return None
    if not 0 <= o.split_attribute < d:
        return 'split on attribute %r of %d' % (o.split_attribute, d)
    return structure(o.left, maxd, d, depth + 1) or structure(o.right, maxd, d, depth + 1)


def ranges(o, low, high, cur):
    """'bad', 'known' (lower ends not restored) or None"""
    if o.left is None:
        return None
    a, p = o.split_attribute, o.split_value
    mid = (low[a] + high[a]) / 2
    kmid = (cur[0][a] + cur[1][a]) / 2
    bad = None
    if not np.isclose(p, mid):
        if not np.isclose(p, kmid):
            return 'bad'
        bad = 'known'
    keep = cur[1][a]
    cur[1][a] = kmid
    x = ranges(o.left, low, high[:a] + [mid] + high[a + 1:], cur)
    cur[1][a] = keep
    cur[0][a] = kmid
    y = ranges(o.right, low[:a] + [mid] + low[a + 1:], high, cur)
    return 'bad' if 'bad' in (x, y) else (bad or x or y)


def walk(n):
    return [n] + ([m for k in n.kids for m in walk(k)] if n.kids else [])


class Ref:
    def __init__(self, c, roots):
        self.c, self.trees, self.n, self.ideal = c, [N(r) for r in roots], 0, None

    def fit(self, x):
        w = self.c['w']
        for t in self.trees:
            n = t
            while True:
                if self.n < w:
                    n.r += 1
                else:
                    n.l += 1
                if not n.kids:
                    break
                n = n.kids[1 if x[n.attr] > n.cut else 0]
            if self.n % w == 0:
                for m in walk(t):
                    m.r, m.l = m.l, 0
        self.n += 1

    def proba(self, x):
        if self.n < self.c['w'] + 2:
            return [.5, .5]
        tot = 0
        for n in self.trees:
            while n.kids and n.r > self.c['limit']:
                n = n.kids[1 if x[n.attr] > n.cut else 0]
            tot += n.r * 2 ** n.depth / (self.c['w'] * 2 ** self.c['depth'])
        tot /= len(self.trees)
        s = abs(tot) + abs(1 - tot)
        return [tot / s, (1 - tot) / s]


def run_case(c):
    from skmultiflow.anomaly_detection import HalfSpaceTrees
    rs = Rec(c['seed']) if c['rec'] else c['seed']
    o = HalfSpaceTrees(window_size=c['w'], depth=c['depth'], n_estimators=c['M'], size_limit=c['limit'], anomaly_threshold=c['th'], random_state=rs)
    desc = 'HalfSpaceTrees(%s)' % ', '.join('%s=%r' % (k, c[k]) for k in ('w', 'depth', 'M', 'limit', 'th', 'seed'))
    ref, known, first = None, None, []
    for k, (op, X) in enumerate(c['ops']):
        A = np.array(X, dtype=float)
        B = A.copy()
        if op == 'reset':
            if o.reset() is not o:
                return desc + ': reset does not return self'
            ref, first = None, []
            if c['rec']:
                rs.log = []
            continue
        if op == 'fit':
            try:
                r = o.partial_fit(A)
            except ValueError:
                if c['d'] == 1 and c['depth'] > 1:
                    return '[hst-last-feature] %s fails on samples with a single feature' % desc
                raise
            if r is not o:
                return desc + ': partial_fit does not return self'
            if ref is None:
                roots = [t.root for t in o.ensemble]
                if len(roots) != c['M']:
                    return '%s: %d trees' % (desc, len(roots))
                for t in roots:
                    m = structure(t, c['depth'], c['d'])
                    if m:
                        return '%s: %s' % (desc, m)
                ref = Ref(c, roots)
                us = [v for t, v in rs.log if t == 'u'] if c['rec'] else []
                if len(us) == c['M'] * c['d']:
                    for i, t in enumerate(roots):
                        s = us[i * c['d']:(i + 1) * c['d']]
                        lo, hi = [v - 2 * max(v, 1 - v) for v in s], [v + 2 * max(v, 1 - v) for v in s]
                        m = ranges(t, lo, hi, [list(lo), list(hi)])
                        if m == 'bad':
                            return '%s: tree %d does not split in the middle of the ranges %s, %s' % (desc, i, lo, hi)
                        if m:
                            known = '[hst-range] %s: tree %d does not split in the middle of the ranges of its nodes' % (desc, i)
                inner = [n for t in ref.trees for n in walk(t) if n.kids]
                if len(inner) > 60 and all(n.attr < c['d'] - 1 for n in inner):
                    known = known or '[hst-last-feature] %s: none of %d splits is on the last of %d features' % (desc, len(inner), c['d'])
            for x in X:
                ref.fit(x)
                first.append(x)
            if not (A == B).all():
                return desc + ': partial_fit changed the samples'
            if o.samples_seen != ref.n:
                return '%s: %r samples seen, expected %d' % (desc, o.samples_seen, ref.n)
            for i, t in enumerate(o.ensemble):
                def cmp(a, b):
                    if (a.left_mass, a.right_mass) != (b.l, b.r):
                        return '%s: after %d samples (call %d), tree %d, depth %d: masses (latest %r, reference %r), expected (%d, %d)' % (desc, ref.n, k, i, b.depth, a.left_mass, a.right_mass, b.l, b.r)
                    return b.kids and (cmp(a.left, b.kids[0]) or cmp(a.right, b.kids[1]))
                m = cmp(t.root, ref.trees[i])
                if m:
                    return m
            if c['w'] > 1 and ref.n == c['w'] + 2 and ref.trees[0].r < c['w']:
                known = known or '[hst-first-window] %s: after %d samples the reference mass of the root is %d' % (desc, ref.n, ref.trees[0].r)
            continue
        want = [[0.0, 0.0] for _ in X] if ref is None else [ref.proba(x) for x in X]
        if op == 'predict':
            got = np.array(o.predict(A))
            if got.shape != (len(X),):
                return '%s: %d predictions for %d samples' % (desc, len(got), len(X))
            for i, p in enumerate(want):
                if abs(p[1] - c['th']) > 1e-9 and int(got[i]) != int(p[1] > c['th']):
                    return '%s: after %d samples, sample %d of %s is labelled %r, its anomaly probability is %r' % (desc, len(first), i, X, got[i], p[1])
        else:
            got = np.array(o.predict_proba(A))
            if got.shape != (len(X), 2) or not np.allclose(got, want):
                return '%s: after %d samples, probabilities of %s are %s, expected %s' % (desc, len(first), X, got.tolist(), want)
        if not (A == B).all():
            return '%s: %s changed the samples' % (desc, op)
    return known
