"""Sends rays at real surfaces: mode int, refl, refr or scr."""
from vlib.surf import *
from vlib.tree import rays, media_pool, BK7, VAC, G
scen, log, argv = args()
MODE = argv[0]
MED = {'vac': VAC, 'const': batoid.ConstMedium(1.3), 'dense': batoid.ConstMedium(1.9),
       'table': batoid.TableMedium([3e-7, 6e-7, 1.2e-6], [1.6, 1.52, 1.47]), 'sell': BK7, 'air': batoid.Air(),
       'thin': batoid.Air(pressure=2.0), 'thinner': batoid.Air(pressure=1.0, temperature=280.0, h2o_pressure=0.1),
       'constish': batoid.ConstMedium(1.300004), 'denser': batoid.ConstMedium(1.9 + 1e-7),
       'sellish': batoid.SellmeierMedium([1.03961212, 0.231792344, 1.01046945, 0.00600069867e-12, 0.0200179144e-12, 103.56e-12]),
       'sumita': batoid.SumitaMedium([2.1045254, -0.0095251763, 0.0085795589, 0.00012770234, -0.000002284102, 0.0000001239725])}
SALT = {'int': 6, 'refl': 7, 'refr': 8, 'scr': 24}[MODE]


def screen(t, rng, lim, scale):
    t = dict(t)
    if t['k'] == 'sum0': return batoid.Plane() + batoid.Sphere(900.0 * scale), {'k': 'sum', 'parts': [{'k': 'plane'}, {'k': 'sph', 'R': num(900.0 * scale)}]}
    if t['k'] in ('par', 'quad'):
        R = float(rng.choice([-1, 1]) * rng.uniform(20, 80) * scale)
        return (batoid.Paraboloid(R), {'k': 'par', 'R': num(R)}) if t['k'] == 'par' else (batoid.Quadric(R, -.5), {'k': 'quad', 'R': num(R), 'c': '-0.5'})
    f, rec, _ = build(t, rng, scale, True)
    return f, rec


def launch(q, s, lim, cs, rng, n, m1, scale):
    """Rays in the surface's frame, with the points they are aimed at."""
    P, V, aim = [], [], []
    w = rng.uniform(4e-7, 9e-7, n)
    newton = q['s']['k'] in ('zern', 'bic', 'asph', 'sum')
    for j in range(n):
        r, th = .5 * lim * np.sqrt(rng.uniform()), rng.uniform(0, 2 * np.pi)
        if j == 0: r = 0.0
        x, y = r * np.cos(th), r * np.sin(th)
        T = np.array([x, y, s.sag(x, y)])
        a = {'axis': 0.0, 'mild': .3, 'steep': .9}[q['steep']] * rng.uniform(.1, 1)
        ph = rng.uniform(0, 2 * np.pi)
        up = {'up': 1, 'down': -1, 'both': int(rng.choice([-1, 1]))}[q['side']]
        d = np.array([np.sin(a) * np.cos(ph), np.sin(a) * np.sin(ph), up * np.cos(a)])
        if q['steep'] == 'axis': d = np.array([0., 0., up])
        L = {'near': .05 * lim, 'far': (.3 if newton else 3.0) * lim, 'on': 0.0, 'behind': -.1 * lim}[q['start']] * rng.uniform(.3, 1)
        if q['s']['k'] == 'plane' and q['start'] == 'far': L *= 100
        p = T - d * L
        ok = True
        if newton and q['s']['k'] != 'asph': ok = np.hypot(p[0], p[1]) < .9 * lim
        speed = 1 / m1.getN(w[j]) if not q['odd'] else 1 / rng.uniform(1, 1.8)
        if q['odd'] and j == n - 1:                 # a ray that cannot meet the surface
            p, d, ok = np.array([40 * lim, 0., .1 * lim]), np.array([0., 1., 0.]), False
            if q['frame'] != 'own' or q['rays'] == 'any': d = np.array([0., .8, .6])      # rounding would decide
        if q['odd'] and j == n - 2 and q['s']['k'] in ('sph', 'par'):
            p, d, ok = np.array([30 * lim, 0., -3 * lim * np.sign(q['s']['sgn'])]), np.array([.1, .2, -1. * np.sign(q['s']['sgn'])]), False
            d /= np.linalg.norm(d)
        P.append(p), V.append(d * speed), aim.append([nums(T)] if ok else [])
    P, V = np.array(P), np.array(V)
    vig, fail = np.zeros(n, bool), np.zeros(n, bool)
    vig[1] = True
    if n > 5: vig[2] = fail[2] = True
    rv = batoid.RayVector(P[:, 0], P[:, 1], P[:, 2], V[:, 0], V[:, 1], V[:, 2], t=rng.normal(size=n), wavelength=w,
                          flux=rng.uniform(.2, 2, n), vignetted=vig, failed=fail, coordSys=cs)
    return rv, aim


EXACT = {'sph': (0, [(0, 0), (0, 2), (1, 1), (.6, .2), (.6, 1.8)]), 'par': (-1, [(0, 0), (1, .5), (2, 2), (.5, .125)]),
         'ellipsoid': (3, [(0, 0), (0, .5), (.5, .25)]), 'sphere': (0, [(0, 0), (0, 2), (1, 1)]), 'prolate': (-.75, [(0, 0), (0, 8), (2, 4)]),
         'parabola': (-1, [(0, 0), (1, .5), (2, 2)]), 'hyperbola': (-2, [(0, 0), (.75, .25), (0, -2)])}


def exact(q, rng, n):
    """A quadric of exactly representable size and rays beginning exactly on it, in its own frame."""
    k = q['s']['k']
    R = q['s']['sgn'] * float(2.0 ** rng.integers(-1, 4))
    c, pts = EXACT[k if k != 'quad' else q['s']['shape']]
    s, rec = {'sph': lambda: (batoid.Sphere(R), {'k': 'sph', 'R': num(R)}), 'par': lambda: (batoid.Paraboloid(R), {'k': 'par', 'R': num(R)}),
              'quad': lambda: (batoid.Quadric(R, c), {'k': 'quad', 'R': num(R), 'c': num(c)})}[k]()
    dirs = [(0, 0, 1), (0, 0, -1), (-1, 0, -.125), (1, 0, .125), (.5, 0, .75), (0, .25, -1), (-.5, .5, .5), (.25, 0, 1)]
    if MODE == 'int': dirs += [(1, 0, 0), (0, 1, 0)]
    P, V, aim = [], [], []
    for j in range(n):
        r, z = pts[j % len(pts)]
        p, d = np.array([r, 0., z]) * R, np.array(dirs[rng.integers(len(dirs))], float)
        if rng.integers(2): p, d = p[[1, 0, 2]], d[[1, 0, 2]]
        Q = np.array([1, 1, 1 + c])
        A, B = np.dot(Q * d, d), np.dot(Q * d, p) - R * d[2]
        ends = [p] + ([p - 2 * B / A * d] if A != 0 else [])
        near = [e for e in ends if 1 - (1 + c) * e[2] / R > 1e-3]
        ok = bool(near) and (A != 0 or abs(B) > 1e-9) and (abs(B) > 1e-6 * abs(R) or r == 0)      # rounding decides where a line touches
        P.append(p), V.append(d), aim.append([nums(np.array([near[0][0], near[0][1], s.sag(near[0][0], near[0][1])]))] if ok else [])
    P, V = np.array(P), np.array(V)
    vig = np.arange(n) % 3 == 1
    rv = batoid.RayVector(P[:, 0], P[:, 1], P[:, 2], V[:, 0], V[:, 1], V[:, 2], t=0.0, wavelength=rng.uniform(4e-7, 9e-7, n), flux=1.5, vignetted=vig)
    return s, rec, rv, aim, 2 * abs(R)


def interface(s, cs, m1, m2, f):
    kw = dict(name='X', coordSys=cs, inMedium=m1, outMedium=m2)
    if MODE == 'int': return batoid.Detector(s, **kw)
    if MODE == 'refl': return batoid.Mirror(s, **kw)
    if MODE == 'refr': return batoid.RefractiveInterface(s, **kw)
    kw['outMedium'] = m1
    return batoid.OPDScreen(s, f, **kw)


def go(q, s, f, cs, rv, m1, m2, rng):
    """Returns (rays after, flux coefficient)."""
    via, flux = q['via'], '1'
    kw = {} if q['rays'] == 'own' and q['odd'] else {'coordSys': cs}
    coat = None
    if q['coat'] != 'none':
        c = float(q['coat'])
        coat = batoid.SimpleCoating(c, .5) if MODE == 'refl' else batoid.SimpleCoating(.5, c)
    if via in ('optic', 'tree'):
        o = interface(s, cs, m1, m2, f)
        if via == 'tree': o = batoid.CompoundOptic([batoid.CompoundOptic([o], name='I', coordSys=batoid.CoordSys(rng.normal(size=3), rot_random(rng)))], name='O')
        if q['rev']:
            if MODE == 'refr': o = interface(s, cs, m2, m1, f)
            return o.trace(rv, reverse=True), flux
        return o.trace(rv), flux
    if via == 'split' and MODE in ('refl', 'refr'):
        c = coat or batoid.SimpleCoating(.4, .7)
        b, a = batoid.rSplit(s, rv, m1, m2, c, **kw) if q['rev'] else s.rSplit(rv, m1, m2, c, **kw)
        return (a, num(c.reflectivity)) if MODE == 'refl' else (b, num(c.transmissivity))
    if coat is not None and MODE != 'scr':
        kw['coating'] = coat
        flux = q['coat']
    fn = via == 'fn'
    if MODE == 'int': return (batoid.intersect(s, rv, **kw) if fn else s.intersect(rv, **kw)), flux
    if MODE == 'refl': return (batoid.reflect(s, rv, **kw) if fn else s.reflect(rv, **kw)), flux
    if MODE == 'refr': return (batoid.refract(s, rv, m1, m2, **kw) if fn else s.refract(rv, m1, m2, **kw)), flux
    return (batoid.trace.refractScreen(s, rv, f, **kw) if fn else s.refractScreen(rv, f, **kw)), flux


for q in scenarios(scen):
    rng = np.random.default_rng([SEED, q['id'], SALT])
    log.current(q)
    scale = float(q['scale'])
    s, rec, lim = build(q['s'], rng, scale, True)
    lim = min(lim, 3.0 * scale) if q['s']['k'] in ('plane', 'tilt') else lim
    f, frec = screen(q['f'], rng, lim, scale) if MODE == 'scr' else (None, {'k': 'plane'})
    cs = {'own': G, 'shift': batoid.CoordSys(rng.normal(size=3)), 'any': batoid.CoordSys(rng.normal(size=3), rot_random(rng))}[q['frame']]
    m1, m2 = MED[q['m1']], MED[q['m2']]
    if q['start'] == 'exact':
        cs = G
        q['rays'], q['odd'] = 'own', True
        s, rec, rv, aim, lim = exact(q, rng, 10)
    else: rv, aim = launch(q, s, lim, cs, rng, 8, m1, scale)
    if q['rays'] == 'any': rv = rv.toCoordSys(batoid.CoordSys(rng.normal(size=3), rot_random(rng)))
    elif q['rays'] == 'global': rv = rv.toCoordSys(G)
    e = {'id': q['id'], 'tag': 'Tilted' if rec['k'] == 'tilt' else '', 'k': MODE, 's': rec, 'scr': frec, 'f': frame(cs), 'aim': aim, 'a': rays(rv),
         'n2': [num(m2.getN(float(w))) for w in rv.wavelength], 'again': '', 'meta': [], 'exc': ''}
    rv0 = rv.copy()
    try:
        b, e['flux'] = go(q, s, f, cs, rv, m1, m2, rng)
        e['b'] = rays(b)
        if MODE == 'int':
            e['again'], e['c'] = 'same', rays(batoid.intersect(s, b.copy(), coordSys=cs))
            # the same lines from other starting points
            mv = lim * rng.uniform(-4, 4, len(rv0))
            v = rv0.v; sp = np.linalg.norm(v, axis=1)
            p = rv0.r + (v.T * (mv / sp**2 * sp)).T
            d = batoid.RayVector(*[np.ascontiguousarray(c) for c in p.T], *[np.ascontiguousarray(c) for c in v.T], rv0.t + mv / sp, rv0.wavelength, rv0.flux, rv0.vignetted, rv0.failed, rv0.coordSys)
            e['d'] = rays(batoid.intersect(s, d, coordSys=cs))
        elif MODE == 'refl':
            e['again'], e['c'] = 'mirror', rays(batoid.reflect(s, b.copy(), coordSys=cs))
        elif MODE == 'refr' and not q['odd']:
            back = batoid.RayVector(b.x, b.y, b.z, -b.vx, -b.vy, -b.vz, b.t, b.wavelength, b.flux, b.vignetted, b.failed, b.coordSys)
            e['again'], e['c'] = 'back', rays(batoid.refract(s, back, m2, m1, coordSys=cs))
    except Exception as ex: e['exc'] = exc_text(ex)
    log.put(e)
log.close()
