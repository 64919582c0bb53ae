"""Features for the items of a generated task, and reference distances"""
import math

import numpy as np
from hypothesis import strategies as st

STEP = 0.125


@st.composite
def windows(draw):
    """Where items lie: [shift of the onset, duration] in exact binary"""
    return [[draw(st.integers(0, 7)) * STEP,
             draw(st.sampled_from([0, 1, 2, 2, 3, 4, 4, 5, 8, 9, 20])) * STEP]
            for _ in range(draw(st.integers(1, 4)))]


# unit of the times: printed with 1 to 17 digits
SCALES = [1, 1, 1, 0.1, 0.01, 1 / 3., 0.07, 100.1, 0.010000000000000002,
          0.6077584402759374, 1e-9]


@st.composite
def feature_specs(draw, dims=(1, 2, 3, 5), values=('int', 'float', 'pos')):
    """How to make the features: a seed and a few choices"""
    return {'seed': draw(st.integers(0, 10 ** 6)),
            'dim': draw(st.sampled_from(dims)),
            'values': draw(st.sampled_from(values)),
            'period': draw(st.sampled_from([1, 2, 2, 3, 4])),
            'shift': draw(st.integers(0, 3)),
            'holes': draw(st.sampled_from([0, 0, 1, 2])),
            'dtype': draw(st.sampled_from(['f8', 'f8', 'f4'])),
            'jitter': draw(st.sampled_from([0, 0, 0, 9, 14, 24, 40])),
            'split': draw(st.sampled_from([1, 1, 1, 2, 3]))}


def make(ref, spec, extra=2):
    """{file name: (times, features)} covering every row of the item file"""
    rng = np.random.RandomState(spec['seed'])
    n = max(1, len(ref.rows))
    names = sorted({ref.filename(i) for i in range(n)})
    step = STEP * spec['period']
    out = {}
    for name in names:
        t = np.arange(spec['shift'] * STEP, n + extra, step)
        if spec['holes']:
            keep = rng.rand(len(t)) > 0.25 * spec['holes']
            keep[0] = True
            t = t[keep]
        if spec.get('jitter'):
            # barely before, at or after the bounds of the items
            t = t + rng.randint(-1, 2, size=len(t)) * 2. ** -spec['jitter']
            t = t - min(t[0], 0)
        t = t * ref.case.get('scale', 1)
        shape = (len(t), spec['dim'])
        if spec['values'] == 'int':
            f = rng.randint(-2, 3, size=shape).astype(float)
        elif spec['values'] == 'pos':
            f = rng.rand(*shape) + 0.05
        else:
            f = rng.randn(*shape)
        out[name] = (t, f.astype(spec['dtype']))
    return out


def write(files, spec, prefix='feats', group='features', groups=None):
    """Write h5features files, returns their paths

    With groups, each file uses the next one of them, and holds something
    else in the others.
    """
    import h5features
    names = sorted(files)
    k = min(spec.get('split', 1), len(names))
    paths = []
    for part in range(k):
        some = names[part::k]
        path = '%s%d.h5f' % (prefix, part)
        mine = groups[part % len(groups)] if groups else group
        for g in groups or [group]:
            h5features.write(path, g, some, [files[n][0] for n in some],
                             [files[n][1] + (0 if g == mine else 100)
                              for n in some])
        paths.append(path)
    return paths


def segment(files, ref, i):
    """The frames of a row of the item file: onset <= time <= offset"""
    t, f = files[ref.filename(i)]
    on, off = ref.onset(i), ref.offset(i)
    keep = [k for k, u in enumerate(t.tolist()) if on <= u <= off]
    return f[keep]


class Segments(dict):
    """Segments of the rows, made when needed"""
    def __init__(self, files, ref):
        dict.__init__(self)
        self.files, self.ref = files, ref

    def __missing__(self, i):
        self[i] = segment(self.files, self.ref, i)
        return self[i]


# --- reference distances --------------------------------------------------
def angle(u, v):
    nu = math.sqrt(math.fsum(a * a for a in u))
    nv = math.sqrt(math.fsum(a * a for a in v))
    if nu == 0 and nv == 0:
        return 0.
    if nu == 0 or nv == 0:
        return 1.
    # stable for small angles too
    s = math.fsum((a / nu - b / nv) ** 2 for a, b in zip(u, v))
    c = math.fsum((a / nu + b / nv) ** 2 for a, b in zip(u, v))
    return 2 * math.atan2(math.sqrt(s), math.sqrt(c)) / math.pi


def cosine_matrix(x, y):
    return [[angle([float(a) for a in u], [float(b) for b in v])
             for v in y] for u in x]


def kl_matrix(x, y, eps):
    """Symmetrised, smoothed divergence of the rows"""
    def prep(m):
        out = []
        for r in m:
            r = [float(a) for a in r]
            s = math.fsum(r)
            r = [a / s + eps for a in r]
            s = math.fsum(r)
            out.append([a / s for a in r])
        return out

    def kl(p, q):
        return math.fsum(a * (math.log(a) - math.log(b))
                         for a, b in zip(p, q))
    x, y = prep(x), prep(y)
    return [[0.5 * kl(p, q) + 0.5 * kl(q, p) for q in y] for p in x]


def dtw_bounds(d, normalized, tol):
    """Interval of acceptable DTW distances for the local distances d

    The cost is the minimal cumulated distance.  Normalised: divided by the
    length of an optimal path; the admissible lengths are those of the paths
    that backtracking may follow when costs closer than tol are taken as
    equal (diagonal preferred when it is clearly not worse).
    """
    n, m = len(d), len(d[0])
    cost = [[0.] * m for _ in range(n)]
    for i in range(n):
        for j in range(m):
            if i == 0 and j == 0:
                best = 0.
            elif i == 0:
                best = cost[0][j - 1]
            elif j == 0:
                best = cost[i - 1][0]
            else:
                best = min(cost[i - 1][j], cost[i - 1][j - 1],
                           cost[i][j - 1])
            cost[i][j] = d[i][j] + best
    c = cost[-1][-1]
    err = tol * (n + m)
    if not normalized:
        return c - err, c + err
    lens = {}                       # cell -> admissible lengths from there
    for i in range(n):
        for j in range(m):
            if i == 0 or j == 0:
                lens[i, j] = {i + j + 1}
                continue
            up, left, diag = (cost[i - 1][j], cost[i][j - 1],
                              cost[i - 1][j - 1])
            low = min(up, left, diag)
            near = tol * (i + j + 2)
            s = set()
            if diag <= low + near:
                s |= lens[i - 1, j - 1]
            if not diag <= low - near and not (diag == low and tol == 0):
                # near ties may go either way
                if left <= low + near:
                    s |= lens[i, j - 1]
                if up <= low + near:
                    s |= lens[i - 1, j]
            lens[i, j] = {k + 1 for k in s}
    ls = lens[n - 1, m - 1]
    return (c - err) / max(ls) if c > err else -err, (c + err) / min(ls)
