"""Real optical systems for the trees of OpticTree.tla, and the primitive replay."""
from vlib.drv import *

G = batoid.CoordSys()
VAC = batoid.ConstMedium(1.0)
BK7 = batoid.SellmeierMedium([1.03961212, 0.231792344, 1.01046945, 0.00600069867e-12, 0.0200179144e-12, 103.560653e-12])


def media_pool(rng):
    return [VAC, batoid.ConstMedium(1.3), batoid.ConstMedium(round(float(rng.uniform(1.2, 2.0)), 3)), BK7,
            batoid.TableMedium([3e-7, 6e-7, 1.2e-6], [1.6, 1.52, 1.47])]


def surface(rng, kinds=None):
    R = float(rng.choice([-1, 1]) * rng.uniform(6, 30))
    k = kinds[int(rng.integers(len(kinds)))] if kinds else int(rng.integers(0, 9))
    if k == 0: return batoid.Plane()
    if k == 1: return batoid.Sphere(R)
    if k == 2: return batoid.Paraboloid(R)
    if k == 3: return batoid.Quadric(R, float(rng.uniform(-2, .8)))
    if k == 4: return batoid.Asphere(R, float(rng.uniform(-2, .5)), list(rng.normal(size=2) * [1e-4, 1e-5]))
    if k == 5: return batoid.Zernike(rng.normal(size=8) * 2e-3, R_outer=2.0)
    if k == 6: return batoid.Sum([batoid.Quadric(R, -0.4), batoid.Zernike(rng.normal(size=7) * 1e-3, R_outer=2.0)])
    if k == 7: return batoid.Plane()
    return batoid.Sum([batoid.Paraboloid(R), batoid.Plane()])


def obscuration(rng):
    k = int(rng.integers(0, 9))
    c = lambda s: float(rng.uniform(-s, s))
    if k == 0: return batoid.ObscCircle(float(rng.uniform(.1, .4)), c(.3), c(.3))
    if k == 1: return batoid.ObscNegation(batoid.ObscCircle(float(rng.uniform(.6, 1.5))))
    if k == 2: return batoid.ObscAnnulus(.1, float(rng.uniform(.2, .4)), c(.2), c(.2))
    if k == 3: return batoid.ObscRectangle(float(rng.uniform(.1, .5)), .3, c(.3), c(.3), c(1))
    if k == 4: return batoid.ObscRay(.1, c(3), c(.2), c(.2))
    return None


def leaf(t, rng, z, m1, m2, kinds=None, extra={}, like=None, straight=False, twin=None):
    tilt = batoid.RotX(float(rng.normal() * .03)) @ batoid.RotY(float(rng.normal() * .03)) @ batoid.RotZ(float(rng.uniform(-3, 3)))
    if straight: like = like or batoid.CoordSys([0.0, 0.0, float(np.round(z, 1))])
    cs = like or batoid.CoordSys([float(rng.normal() * .05), float(rng.normal() * .05), z], tilt)
    kw = dict(name=t['n'], coordSys=cs, inMedium=m1, outMedium=m2, skip=t['skip'], obscuration=obscuration(rng), **extra)
    s = twin or surface(rng, kinds)
    k = t['k']
    if k == 'S':
        kw['outMedium'] = m1
        return batoid.OPDScreen(s, batoid.Zernike(rng.normal(size=5) * 1e-4, R_outer=2.0), **kw)
    cls = {'M': batoid.Mirror, 'R': batoid.RefractiveInterface, 'B': batoid.Baffle, 'D': batoid.Detector}[k]
    return cls(s, **kw)


class Builder:
    """build(tree) gives the batoid optic; .leaf maps names to interfaces."""
    def __init__(self, rng, kinds=None, media=None, extra=lambda t: {}, shared=None, straight=None, behind=None):
        if shared is None: shared = not rng.integers(4)
        if straight is None: straight = not rng.integers(4)
        self.shared = shared          # do some interfaces lie in the frame of the one before?
        self.straight = straight      # are all frames on the axis, unturned?
        self.rng, self.kinds, self.extra = rng, kinds, extra
        self.pool = media or media_pool(rng)
        self.z = 0.0
        self.sgn = float(rng.choice([-1, 1]))
        self.leaf = {}
        self.behind = behind          # name of the interface before a detector

    def pick(self):
        return self.pool[int(self.rng.integers(len(self.pool)))]

    def before(self):
        """Frame, and maybe surface too, of the interface before, for one in the same place."""
        if not (self.shared and self.leaf and self.rng.integers(2)): return None, None
        o = list(self.leaf.values())[-1]
        return o.coordSys, [None, o.surface][self.rng.integers(2)]

    def build(self, t, m1=None, m2=None):
        if t['k'] in 'CL':
            cs = G if self.straight else batoid.CoordSys(self.rng.normal(size=3), rot_random(self.rng))
            if t['k'] == 'L':
                m = self.pick()
                if t['items'][0]['k'] == 'S': a = m
                else: a = self.pick()
                items = [self.build(t['items'][0], a, m), self.build(t['items'][1], m, self.pick())]
                return batoid.Lens(items, name=t['n'], coordSys=cs, skip=t['skip'], inMedium=a, outMedium=items[1].outMedium,
                                   **self.extra(t))
            return batoid.CompoundOptic([self.build(c) for c in t['items']], name=t['n'], coordSys=cs, skip=t['skip'],
                                       **self.extra(t))
        like, twin = self.before()
        if t['k'] == 'D' and self.behind:           # in the medium the rays arrive in, from this interface
            m1 = m2 = self.leaf[self.behind].outMedium
        o = leaf(t, self.rng, self.z, m1 or self.pick(), m2 or self.pick(), kinds=self.kinds, extra=self.extra(t), like=like, straight=self.straight, twin=twin)
        self.z += self.sgn * float(self.rng.uniform(.3, 1.5))
        self.leaf[t['n']] = o
        return o


def bundle(rng, n=14, wild=True, kind='mixed', cs=None):
    """Rays of every condition (or of one kind), expressed in a random frame."""
    if kind == 'one': n = 1
    if kind == 'none': n = 0
    if kind in ('one', 'none', 'live'): wild = False
    p = np.column_stack([rng.uniform(-.4, .4, n), rng.uniform(-.4, .4, n), rng.uniform(1, 3, n)])
    d = np.column_stack([rng.normal(size=n) * .08, rng.normal(size=n) * .08, -np.ones(n)])
    if rng.integers(0, 2): d[:, 2] = 1; p[:, 2] *= -1
    vig, fail = np.zeros(n, bool), np.zeros(n, bool)
    if wild:
        vig[1] = True
        vig[2] = fail[2] = True
        p[3, 0] = 60.0          # misses most curved surfaces
        d[4] = [1.2, .3, d[4, 2]]  # steep: total internal reflection
        d[5] = [-1.0, .5, d[5, 2]]
    if kind in ('lost', 'dark', 'failed'): vig[:] = True
    if kind == 'failed': fail[:] = True
    if kind == 'dark': fail[:] = False
    if kind == 'miss': vig[:] = False; fail[:] = False
    if kind == 'one' and rng.integers(2): vig[0] = True
    d /= np.linalg.norm(d, axis=1)[:, None]
    v = d / rng.choice([1.0, 1.3, 1.5], size=n)[:, None]
    rv = batoid.RayVector(p[:, 0], p[:, 1], p[:, 2], v[:, 0], v[:, 1], v[:, 2], t=rng.normal(size=n),
                          wavelength=rng.uniform(4e-7, 9e-7, n), flux=rng.uniform(.2, 2, n), vignetted=vig, failed=fail, coordSys=G)
    if cs is None: cs = batoid.CoordSys(rng.normal(size=3) * .3, rot_random(rng)) if rng.integers(0, 3) else G
    return rv.toCoordSys(cs)


def rays(rv):
    """Rays for module Rays."""
    a = np.column_stack([rv.x, rv.y, rv.z, rv.vx, rv.vy, rv.vz, rv.t, rv.wavelength, rv.flux])
    return {'q': [nums(r) for r in a], 'vig': [bool(b) for b in rv.vignetted], 'fail': [bool(b) for b in rv.failed],
            'cs': frame(rv.coordSys)}


def own(o, rv, rev, **kw):
    """The interface's own interaction by primitive operations, then its obscuration."""
    k = type(o).__name__
    s, cs = o.surface, o.coordSys
    if k == 'Mirror': batoid.reflect(s, rv, coordSys=cs)
    elif k == 'RefractiveInterface':
        m1, m2 = (o.outMedium, o.inMedium) if rev else (o.inMedium, o.outMedium)
        batoid.refract(s, rv, m1, m2, coordSys=cs)
    elif k == 'OPDScreen': batoid.trace.refractScreen(s, rv, o.screen, coordSys=cs)
    else: batoid.intersect(s, rv, coordSys=cs)
    dim(o, rv, **kw)
    return rv


def turn(o, rv):
    batoid.reflect(o.surface, rv, coordSys=o.coordSys)
    dim(o, rv)
    return rv


SAME = object()
def dim(o, rv, obs=SAME):
    if obs is SAME: obs = o.obscuration
    if obs is not None: batoid.obscure(obs, rv)


def replay(leaves, visits, rv, obs=None):
    """Snapshots of the rays before the first and after every visit; obs: obscurations, where not their own."""
    out = [rays(rv)]
    for v in visits:
        o = leaves[v['n']]
        if v.get('act', 'go') == 'go': own(o, rv, v['rev'], **({'obs': obs[v['n']]} if obs else {}))
        else: turn(o, rv)
        out.append(rays(rv))
    return out
