"""Helpers of the drivers: they run batoid's public API and log what it does."""
import json, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, '/repo')
import numpy as np
import batoid
assert batoid.__file__ == '/repo/batoid/__init__.py', batoid.__file__

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'


def num(x):
    """A double as a decimal string for module Dec."""
    x = float(x)
    if x != x:
        return 'nan'
    if x in (float('inf'), float('-inf')):
        return 'inf' if x > 0 else '-inf'
    return repr(x)


def nums(a):
    return [num(x) for x in np.asarray(a, dtype=float).ravel()]


def mat(a):
    return [nums(r) for r in np.asarray(a, dtype=float)]


def frame(cs):
    return {'o': nums(cs.origin), 'R': mat(cs.rot)}


class Log:
    def __init__(self, path):
        self.path = path
        self.f = open(path, 'w')
        self.n = 0

    def current(self, s):
        with open(self.path + '.current', 'w') as f:
            f.write(s if isinstance(s, str) else json.dumps(s))

    def put(self, rec):
        self.f.write(json.dumps(rec) + '\n')
        self.n += 1

    def close(self):
        self.f.close()


def scenarios(path):
    return [json.loads(l) for l in open(path)]


def args():
    return sys.argv[1], Log(sys.argv[2]), sys.argv[3:]


def bulk(f, rng, ref, *cols):
    """What f says of the same points among thousands of others: for each point the answer furthest from ref."""
    n = len(cols[0])
    size = int(rng.choice([1003, 4099, 20011]))
    idx = rng.permutation(np.concatenate([np.arange(n), rng.integers(0, n, size)]))
    out = np.asarray(f(*[np.ascontiguousarray(np.asarray(c)[idx]) for c in cols]))
    if out.shape[0] != len(idx): return out
    ref = np.asarray(ref)
    a, b = out.reshape(len(idx), -1).astype(float), ref.reshape(n, -1).astype(float)[idx]
    d = np.where(np.isnan(a) & np.isnan(b), 0, np.where(np.isnan(a) != np.isnan(b), np.inf, np.abs(a - b)))
    d = np.where(np.isnan(d), 0, d).max(axis=1)
    order = np.lexsort((d, idx))                      # by point, then by deviation
    last = np.searchsorted(idx[order], np.arange(n), side='right') - 1
    return out[order[last]]


def exc_text(e):
    return type(e).__name__ + ': ' + str(e)[:200].replace('"', "'").replace('\\', '/').replace('\n', ' ')


def rot_random(rng):
    """A random rotation matrix (proper orthogonal to rounding)."""
    q = rng.normal(size=4)
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([[1-2*(y*y+z*z), 2*(x*y-z*w), 2*(x*z+y*w)],
                     [2*(x*y+z*w), 1-2*(x*x+z*z), 2*(y*z-x*w)],
                     [2*(x*z-y*w), 2*(y*z+x*w), 1-2*(x*x+y*y)]])


def cube_rots():
    """The 24 rotations of the cube as integer matrices."""
    out = []
    import itertools
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            m = np.zeros((3, 3))
            for i in range(3):
                m[i, p[i]] = s[i]
            if round(np.linalg.det(m)) == 1:
                out.append(m)
    return out
