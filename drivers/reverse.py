"""Sends rays through systems and back, and through moved systems."""
from vlib.tree import *
scen, log, argv = args()
YAML = [('HSC/HSC.yaml', .6), ('DECam/DECam.yaml', .9), ('DESI/DESI.yaml', 1.2), ('AuxTel/AuxTel.yaml', .08), ('SDSS/SDSS.yaml', 1.0), ('LSST/LSST_r.yaml', 1.5),
        ('LSST/LSST_r_baffles.yaml', 1.5), ('LSST/ComCam_g.yaml', .3), ('LSST/Rubin_v3.12_y.yaml', 1.5), ('PFS/PFS.yaml', .5), ('LSST/LSST_u.yaml', 1.5), ('LSST/LSST_i.yaml', 1.5)]
YAML = [(f, r) for f, r in YAML if os.path.exists(os.path.join(batoid.datadir, f))]


class Chain(Builder):
    """What one interface leaves is what the next one meets, so that light gets through."""
    cur, dark = VAC, False

    def build(self, t, dark=False):
        dark = dark or t['skip']
        if t['k'] in 'CL':
            cs = G if self.straight else batoid.CoordSys(self.rng.normal(size=3), rot_random(self.rng))
            keep = self.cur
            items = [self.build(c, dark) for c in t['items']]
            if dark: self.cur = keep
            cls = batoid.Lens if t['k'] == 'L' and (len(items) == 1 or items[0].outMedium == items[-1].inMedium) else batoid.CompoundOptic
            return cls(items, name=t['n'], coordSys=cs, skip=t['skip'], inMedium=items[0].inMedium, outMedium=items[-1].outMedium)
        like, twin = self.before()
        m2 = self.pick() if t['k'] == 'R' else self.cur
        o = leaf(t, self.rng, self.z, self.cur, m2, kinds=self.kinds, like=like, straight=self.straight, twin=twin)
        if not t['skip']: self.cur = m2
        self.z += self.sgn * float(self.rng.uniform(.3, 1.5))
        self.leaf[t['n']] = o
        return o


def moved(rng, o, m):
    c, cf = rng.normal(size=3), batoid.CoordSys(rng.normal(size=3), rot_random(rng))
    if m == 'sg': return o.withGlobalShift(rng.normal(size=3))
    if m == 'sl': return o.withLocalShift(rng.normal(size=3))
    if m == 'rg': return o.withGlobalRotation(rot_random(rng))
    if m == 'rl': return o.withLocalRotation(rot_random(rng))
    if m == 'rc': return o.withGlobalRotation(rot_random(rng), rotCenter=c)
    return o.withLocalRotation(rot_random(rng), rotCenter=c, coordSys=cf)


def mk(r, v, t, like, cs):
    return batoid.RayVector(r[:, 0], r[:, 1], r[:, 2], v[:, 0], v[:, 1], v[:, 2], t, like.wavelength, like.flux, like.vignetted, like.failed, cs)


for s in scenarios(scen):
    rng = np.random.default_rng([SEED, s['id'], 26])
    log.current(s)
    if s['yaml'] >= 0:
        f, field = YAML[s['yaml'] % len(YAML)]
        sys_ = batoid.Optic.fromYaml(os.path.join(batoid.datadir, f))
        th = np.deg2rad(field) * rng.uniform(-.7, .7, 2)
        a, q = rng.uniform(0, 2 * np.pi, 20), sys_.pupilSize / 2 * np.sqrt(rng.uniform(0, 1.1, 20))    # nothing exactly on an edge
        rv = batoid.RayVector.fromStop(q * np.cos(a), q * np.sin(a), optic=sys_, wavelength=float(rng.uniform(5.5e-7, 7e-7)), theta_x=th[0], theta_y=th[1])
    else:
        B = Chain(rng, shared=s['shared'])
        sys_ = B.build(s['tree'])
        rv = bundle(rng, 8, wild=False)
        n = rv.v / np.linalg.norm(rv.v, axis=1)[:, None]
        rv = mk(rv.r, n, rv.t, rv, rv.coordSys)          # in vacuum, where the first interface is met
    base = {'id': s['id'], 'exc': ''}
    try:
        out = sys_.trace(rv.copy())
        if s['on'] == 'beyond':
            ts = float(np.nanmax(np.where(out.failed, -np.inf, out.t))) if not out.failed.all() else 0.0
            sent = out.copy().propagate(ts + .3) if s['yaml'] < 0 else out.copy()
        else: sent = out.copy()
        back = mk(sent.r, -sent.v, -sent.t, sent, sent.coordSys)
        back.vignetted[:] = rv.vignetted | sent.failed        # the obscurations are to stop them again
        e = dict(base, k='back', first=rays(rv), out=rays(out))
        e['back'] = rays(sys_.trace(back, reverse=True))
    except Exception as ex:
        e = dict(base, k='back', exc=exc_text(ex))
    log.put(e)
    try:
        new = sys_
        for m in s['moves']: new = moved(rng, new, m)
        A, Z = sys_.coordSys, new.coordSys
        # the frame of the rays takes part in the motion
        C = rv.coordSys
        R = Z.rot @ A.rot.T
        D = batoid.CoordSys(R @ (C.origin - A.origin) + Z.origin, R @ C.rot)
        rm = mk(rv.r, rv.v, rv.t, rv, D)
        kw = {'reverse': True} if s['rev'] and s['yaml'] < 0 else {}
        out = sys_.trace(rv.copy(), **kw)
        if s['how'] == 'full' and len(sys_.traceFull(rm, **kw)): mv = list(new.traceFull(rm, **kw).values())[-1]['out']
        else: mv = new.trace(rm, **kw)
        e = dict(base, k='move', out=rays(out), moved=rays(mv), **{'from': frame(A), 'to': frame(Z)})
    except Exception as ex:
        e = dict(base, k='move', exc=exc_text(ex))
    log.put(e)
log.close()
