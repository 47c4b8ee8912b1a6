"""Surfaces for Surfaces.tla: build the real object and its record."""
from vlib.drv import *


def conic(rng, shape):
    return {'ellipsoid': float(rng.uniform(.05, 2)), 'sphere': 0.0, 'prolate': float(rng.uniform(-.95, -.05)),
            'parabola': -1.0, 'hyperbola': float(rng.uniform(-4, -1.05))}[shape]


def build(t, rng, scale=1.0, mild=False):
    """t: a surface of SagGen. Returns (surface, record, radius where it is well defined)."""
    k = t['k']
    R = float(t['sgn'] * rng.uniform(3, 20)) * scale
    if t.get('int') and scale >= 1: R = float(t['sgn'] * (rng.choice([1, 1, 2, 4]) if scale == 1 and rng.integers(2) else round(abs(R))))
    if k == 'plane': return batoid.Plane(), {'k': 'plane'}, 2.0 * scale
    if k == 'tilt':
        a, b = rng.uniform(-.5, .5, 2) if mild else rng.normal(size=2) * .4
        return batoid.Tilted(float(a), float(b)), {'k': 'tilt', 'tx': num(a), 'ty': num(b)}, 2.0 * scale
    if k == 'par': return batoid.Paraboloid(R), {'k': 'par', 'R': num(R)}, abs(R)
    if k == 'sph': return batoid.Sphere(R), {'k': 'sph', 'R': num(R)}, abs(R) * .6
    c = conic(rng, t['shape'])
    if t.get('int') and rng.integers(2): c = {'ellipsoid': 1.0, 'prolate': -0.5, 'hyperbola': float(rng.choice([-2, -3]))}.get(t['shape'], c)
    lim = abs(R) * (.6 / np.sqrt(1 + c) if c > -.5 else .8)
    if k == 'quad': return batoid.Quadric(R, c), {'k': 'quad', 'R': num(R), 'c': num(c)}, lim
    if k == 'asph':
        im = t['imin']
        r = min(lim, 2.0 * scale)
        co = [float(rng.normal() * (.002 if mild else .01) * scale / r ** (2 * (j + im))) for j in range(t['nco'])]
        if t.get('int') and not mild: co = [int(rng.integers(-2, 3)) for _ in co]
        arg = co if rng.integers(2) else (np.array(co) if rng.integers(2) else tuple(co))
        s = batoid.Asphere(R, c, arg) if im == 2 and rng.integers(2) else batoid.Asphere(R, c, arg, im)
        return s, {'k': 'asph', 'R': num(R), 'c': num(c), 'co': nums(co), 'imin': im}, r
    if k == 'zern':
        Ro = float(rng.choice([1, 2]) if t.get('int') and rng.integers(2) else rng.uniform(.8, 2.5)) * scale
        Ri = float(rng.uniform(.1, .7) * Ro) if t['annular'] else 0.0
        x0, y0 = (rng.normal(size=2) * .2 * scale) if t['origin'] else (0.0, 0.0)
        co = rng.normal(size=t['nz'] + 1) * (1e-3 if mild else .05) * scale
        if mild: co *= 1 / np.sqrt(len(co))
        if rng.integers(2): co[rng.integers(len(co)):] *= rng.integers(2)
        kw = {}
        if Ro != 1.0 or rng.integers(2): kw['R_outer'] = Ro
        if Ri: kw['R_inner'] = Ri
        if t['origin']: kw.update(x_origin=float(x0), y_origin=float(y0))
        arg = list(co) if rng.integers(2) else co.copy()
        s = batoid.Zernike(arg, **kw)
        if isinstance(arg, np.ndarray): arg[:] = 77.0          # the caller's array is no longer the surface's
        return s, {'k': 'zern', 'co': nums(co), 'Ro': num(Ro), 'Ri': num(Ri), 'x0': num(x0), 'y0': num(y0)}, Ro
    if k == 'bic':
        nx, ny = t['nx'], t['ny']
        hx, hy = rng.uniform(.8, 2.0, 2) * scale
        ox, oy = (rng.normal(size=2) * .3 * scale) if t['origin'] else (0.0, 0.0)
        xs, ys = np.linspace(-hx + ox, hx + ox, nx), np.linspace(-hy + oy, hy + oy, ny)
        if mild:
            f = rng.normal(size=6) * .004 * scale
            X, Y = np.meshgrid(xs / scale, ys / scale)
            z = f[0] + f[1] * X + f[2] * Y + f[3] * X * Y + f[4] * X**2 + f[5] * np.cos(2 * Y)
        else: z = rng.normal(size=(ny, nx)) * .1
        g = [rng.normal(size=(ny, nx)) * (.004 if mild else .1) for _ in range(3)]
        use = {'none': (0, 0, 0), 'all': (1, 1, 1), 'first': (1, 1, 0), 'mixed': (int(rng.integers(2)), int(rng.integers(2)), int(rng.integers(2)))}[t['given']]
        kw = {n: a for n, a, u in zip(('dzdxs', 'dzdys', 'd2zdxdys'), g, use) if u}
        if t.get('int') and not mild and rng.integers(2):       # whole numbers
            z = rng.integers(-2, 3, (ny, nx))
            g = [rng.integers(-1, 2, (ny, nx)) for _ in range(3)]
            kw = {n: a for n, a, u in zip(('dzdxs', 'dzdys', 'd2zdxdys'), g, use) if u}
        for n in kw:
            if n in ('dzdxs', 'dzdys', 'd2zdxdys'): kw[n] = [kw[n], np.asfortranarray(kw[n]), kw[n].tolist() if len(kw) >= 3 and all(use) else kw[n]][int(rng.integers(3))]
        zz = [np.array(z), z.tolist(), np.asfortranarray(z)][int(rng.integers(3))]
        if t['pol'] == 'zero' or rng.integers(2): kw['nanpolicy'] = t['pol'] if rng.integers(2) else t['pol'].upper()
        s = batoid.Bicubic(xs, ys, zz, **kw)
        rec = {'k': 'bic', 'x0': num(xs[0]), 'x1': num(xs[-1]), 'y0': num(ys[0]), 'y1': num(ys[-1]), 'z': mat(z),
               'zx': mat(g[0]) if use[0] else [], 'zy': mat(g[1]) if use[1] else [], 'zxy': mat(g[2]) if use[2] else [], 'pol': t['pol']}
        return s, rec, float(min(hx - abs(ox), hy - abs(oy)))
    # the first addend gives the shape, as the intersection's starting point assumes; later ones correct it
    parts = [build(q, rng, scale * (12 if mild and j and q['k'] in ('par', 'sph', 'quad') else 1), mild) for j, q in enumerate(t['parts'])]
    if len(parts) == 2 and rng.integers(2): s = parts[0][0] + parts[1][0]
    elif rng.integers(2): s = batoid.Sum([p[0] for p in parts])
    else: s = batoid.Sum(*[p[0] for p in parts])
    return s, {'k': 'sum', 'parts': [p[1] for p in parts]}, min(p[2] for p in parts)
