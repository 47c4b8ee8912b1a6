"""Projects fields to directions and back with the real code."""
import warnings
from vlib.drv import *
warnings.simplefilter('ignore')
scen, log, argv = args()
U = batoid.utils
LIM = {'postel': 2.4, 'zemax': 1.45, 'gnomonic': 50.0, 'stereographic': 6.0, 'lambert': 1.9, 'orthographic': .995}


def calls(p, api):
    if api == 'named':
        P = p[0].upper() + p[1:]
        return getattr(U, p + 'ToDirCos'), getattr(U, 'dirCosTo' + P)
    m = batoid if api == 'top' and hasattr(batoid, 'fieldToDirCos') else U
    return (lambda u, v: m.fieldToDirCos(u, v, projection=p)), (lambda a, b, c: m.dirCosToField(a, b, c, projection=p))


def shaped(x, shape):
    if shape == 'matrix': return x.reshape(2, -1)
    if shape == 'fortran': return np.asfortranarray(x.reshape(2, -1))
    if shape == 'strided': return np.repeat(x, 2)[::2]
    if shape == 'oneone': return x[:1].reshape(1, 1)
    if shape == 'one': return x[:1].copy()
    if shape == 'zero-d': return np.array(x[0])
    if shape == 'scalar': return float(x[0])
    if shape == 'npscalar': return np.float64(x[0])
    if shape == 'empty': return x[:0].copy()
    if shape == 'readonly':
        x = x.copy(); x.flags.writeable = False
        return x
    return x.copy()


for s in scenarios(scen):
    rng = np.random.default_rng([SEED, 2200, s['id']])
    p = s['p']
    log.current(s)
    n = 8
    lim = LIM[p]
    r = {'zero': np.zeros(n), 'tiny': 10 ** rng.uniform(-14, -6, n), 'small': 10 ** rng.uniform(-6, -2, n), 'field': rng.uniform(0, .06, n),
         'large': rng.uniform(0, min(lim, 1.4), n), 'huge': rng.uniform(.5, 1, n) * lim, 'mixed': 10 ** rng.uniform(-12, 0, n) * lim}[s['size']]
    th = {'x': np.zeros(n), 'y': np.full(n, np.pi / 2), 'diag': np.full(n, np.pi / 4), 'any': rng.uniform(-7, 7, n)}[s['axis']]
    sg = rng.choice([-1, 1], n)
    u, v = r * np.cos(th) * sg, r * np.sin(th) * sg
    if s['axis'] == 'x': v = 0 * v
    if s['axis'] == 'y': u = 0 * u
    if s['shape'] == 'int': u, v = np.round(u), np.round(v)
    if p == 'orthographic' and s['shape'] == 'int': u, v = 0 * u, 0 * v
    if p == 'zemax' and s['shape'] == 'int': u, v = np.clip(u, -1, 1), np.clip(v, -1, 1)
    if p == 'lambert' and s['shape'] == 'int': v = np.where(abs(u) > 0, 0, np.clip(v, -1, 1)); u = np.clip(u, -1, 1)
    if p == 'postel' and s['shape'] == 'int': u, v = np.clip(u, -1, 1), np.clip(v, -1, 1)
    if s['zeros']:
        j = rng.integers(0, n, 2)
        u[j[0]] = v[j[0]] = 0.0
    # directions: some of any angle, some on axis
    ang = {'zero': np.zeros(n), 'tiny': 10 ** rng.uniform(-10, -6, n), 'small': 10 ** rng.uniform(-6, -2, n), 'field': rng.uniform(0, .06, n)}.get(s['size'], rng.uniform(0, 1.45 if p in ('zemax', 'gnomonic', 'orthographic') else 2.3, n))
    az = th if s['axis'] != 'any' else rng.uniform(-7, 7, n)
    g = np.array([np.sin(ang) * np.cos(az), np.sin(ang) * np.sin(az), -np.cos(ang)])
    if s['axis'] == 'x': g[1] = 0
    if s['axis'] == 'y': g[0] = 0
    if s['zeros']: g[:, j[1]] = 0, 0, -1
    rec = {'id': s['id'], 'p': p, 'exc': '', 'tag': '', 'bad': '', 'pts': [], 'kept': True, 'scalars': True, 'many': True, 'shapes': [], 'shape': []}
    try:
        fwd, inv = calls(p, s['api'])
        ua, va = shaped(u, s['shape']), shaped(v, s['shape'])
        if s['shape'] == 'int': ua, va = ua.astype(int), va.astype(int)
        ga = [shaped(c, s['shape']) for c in g]
        if s['shape'] == 'int' and s['size'] == 'zero': ga = [c.astype(int) for c in ga]
        keep = [np.array(c, copy=True) for c in (ua, va, *ga)]
        d = fwd(ua, va)
        w = inv(*d)
        h = inv(*ga)
        k = fwd(*h)
        rec['kept'] = all(np.array_equal(a, b) for a, b in zip(keep, (ua, va, *ga)))
        rec['shape'] = list(np.shape(ua))
        rec['shapes'] = [list(np.shape(c)) for c in (*d, *w, *h, *k)]
        if all(x == rec['shape'] for x in rec['shapes']):
            F = [np.asarray(c, dtype=float).ravel() for c in (ua, va, *d, *w, *ga, *h, *k)]
            for j in range(len(F[0])):
                q = [num(c[j]) for c in F]
                gz = abs(float(F[9][j]))
                cond = 1 + (10 * (1 + np.hypot(F[0][j], F[1][j])) ** 2 if p == 'gnomonic' else 0) + (20 / gz if gz < 1 else 20) + (30 if p != 'gnomonic' else 0)
                rec['pts'].append({'u': q[0:2], 'd': q[2:5], 'w': q[5:7], 'g': q[7:10], 'h': q[10:12], 'k': q[12:15], 'cond': num(cond)})
                one = fwd(float(F[0][j]), float(F[1][j]))
                two = inv(*[float(F[7 + i][j]) for i in range(3)])
                if not (np.allclose(one, [F[2][j], F[3][j], F[4][j]], rtol=1e-13, atol=1e-15) and np.allclose(two, [F[10][j], F[11][j]], rtol=1e-13, atol=1e-15)): rec['scalars'] = False
        if s['shape'] == 'vector':                 # among thousands of other fields
            D = bulk(lambda a, b: np.stack(fwd(a, b), axis=1), rng, np.stack(d, axis=1), ua, va)
            H = bulk(lambda a, b, c: np.stack(inv(a, b, c), axis=1), rng, np.stack(h, axis=1), *ga)
            if not (np.allclose(D, np.stack(d, axis=1), rtol=1e-12, atol=1e-15) and np.allclose(H, np.stack(h, axis=1), rtol=1e-12, atol=1e-15)): rec['many'] = False
        rec['bad'] = ''
        for f in (lambda: U.fieldToDirCos(.1, .1, projection=s['bad']), lambda: U.dirCosToField(0., 0., -1., projection=s['bad'])):
            try: f(); rec['bad'] = 'accepted'
            except ValueError: rec['bad'] = rec['bad'] or 'ValueError'
    except Exception as e:
        rec['exc'] = exc_text(e)
        rec['trace'] = traceback.format_exc()[-600:]
    log.put(rec)
log.close()
