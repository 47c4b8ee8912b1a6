"""Asks real telescopes for analysis products; logs them with the rays they should be about."""
import warnings
from vlib.tree import *
warnings.simplefilter('ignore')
scen, log, argv = args()
A, RV = batoid.analysis, batoid.RayVector
YAML = [('HSC/HSC.yaml', .6), ('HSC/HSC_no_obsc.yaml', .6), ('DECam/DECam.yaml', .9), ('DESI/DESI.yaml', 1.2), ('AuxTel/AuxTel.yaml', .08), ('AuxTel/Calypso.yaml', .08), ('SDSS/SDSS.yaml', 1.0),
        ('LSST/LSST_r.yaml', 1.5), ('LSST/LSST_u.yaml', 1.5), ('LSST/LSST_r_noobsc.yaml', 1.0), ('LSST/LSST_r_baffles.yaml', 1.5), ('LSST/ComCam_g.yaml', .3), ('LSST/Rubin_v3.12_y.yaml', 1.5), ('LSST/Rubin_v3.14_z.yaml', 1.5), ('PFS/PFS.yaml', .5)]
loaded = {}


def mirror(k, D, R, rng, bumps):
    s = batoid.Paraboloid(R) if k == 0 else batoid.Quadric(R, float(rng.uniform(-1.3, -.7))) if k == 1 else batoid.Sphere(R)
    if bumps: s = batoid.Sum([s, batoid.Zernike(rng.normal(size=12) * 3e-7 * np.array([0] * 2 + [1] * 10), R_outer=D / 2)])
    return s


def screens(s, D, name, cs, rng):
    """obscurations in front of the mirror"""
    o = {'none': None, 'centre': batoid.ObscCircle(.15 * D), 'off': batoid.ObscCircle(.15 * D, float(rng.uniform(-.2, .2)) * D, float(rng.uniform(.05, .2)) * D),
         'heavy': batoid.ObscUnion([batoid.ObscNegation(batoid.ObscCircle(.42 * D)), batoid.ObscRectangle(.3 * D, .2 * D, .1 * D, .05 * D, .3)])}[s['obsc']]
    return [batoid.Baffle(batoid.Plane(), name=name, obscuration=o, coordSys=cs)] if o is not None else []


def telescope(s, rng):
    """optic, largest field angle in radians"""
    t = s['tel']
    if t == 'yaml':
        f, field = YAML[s['yaml'] % len(YAML)]
        if f not in loaded: loaded[f] = batoid.Optic.fromYaml(f.split('/')[1])
        o = loaded[f]
        field = np.deg2rad(field) * .7
    else:
        D, f = float(rng.uniform(1, 4)), float(rng.uniform(8, 16))
        at = lambda z: batoid.CoordSys([0, 0, z])
        kw = dict(name='T', pupilSize=D, backDist=float(rng.uniform(15, 40)), sphereRadius=float(rng.choice([-1, 1]) * rng.uniform(3, 20)), pupilObscuration=float(rng.uniform(.1, .4)))
        stop = batoid.Interface(batoid.Plane(), name='stop', coordSys=at(0.0))
        df = float(rng.normal() * 2e-4)
        if t == 'mirror':
            m = batoid.Mirror(mirror(int(rng.integers(0, 3)) if f > 3 * D else 0, D, 2 * f, rng, s['bumps']), name='M', coordSys=at(0.0))
            items = screens(s, D, 'B', at(f * .9), rng) + [m, batoid.Detector(batoid.Plane(), name='D', coordSys=at(f + df))]
            if rng.integers(2): kw['stopSurface'] = batoid.Interface(batoid.Plane(), name='stop', coordSys=batoid.CoordSys([0, 0, float(rng.uniform(0, f * .5))]))
            elif rng.integers(2): kw['stopSurface'] = batoid.Interface(batoid.Paraboloid(2 * f), name='stop', coordSys=at(0.0))
            field = .008
        elif t == 'flat':                 # folded: a mirror, a flat at 45 degrees
            m = batoid.Mirror(mirror(0, D, 2 * f, rng, s['bumps']), name='M', coordSys=at(0.0))
            fold = batoid.Mirror(batoid.Plane(), name='F', coordSys=batoid.CoordSys([0, 0, f * .8], batoid.RotX(-np.pi / 4)))
            d = batoid.Detector(batoid.Plane(), name='D', coordSys=batoid.CoordSys([0, -(f * .2 + df), f * .8], batoid.RotX(np.pi / 2)))
            items = screens(s, D, 'B', at(f * .95), rng) + [batoid.CompoundOptic([m, fold], name='C'), d]
            field = .005
        elif t == 'cass':
            b, mag = f * .75, 3.0                                    # the secondary faces the primary
            R2 = -2 * (f - b) * mag / (mag - 1)
            e = (mag + 1) / (mag - 1)
            m1 = batoid.Mirror(mirror(0, D, 2 * f, rng, s['bumps']), name='M1', coordSys=at(0.0))
            m2 = batoid.Mirror(batoid.Quadric(-R2, -e * e), name='M2', coordSys=at(b))
            items = screens(s, D, 'B', at(b * 1.1), rng) + [m1, m2, batoid.Detector(batoid.Plane(), name='D', coordSys=at(b - (f - b) * mag + df * 10))]
            field = .003
        else:
            D /= 4; kw['pupilSize'] = D
            n = batoid.ConstMedium(float(rng.uniform(1.4, 1.8))) if rng.integers(2) else BK7
            w = batoid.ConstMedium(1.0)
            N = n.getN(6e-7)
            r1 = 2 * f * (N - 1)
            side = float(rng.choice([1.0, 1.0]))
            L = batoid.Lens([batoid.RefractiveInterface(batoid.Quadric(-r1, -.6) if rng.integers(2) else batoid.Sphere(-r1), name='L1', coordSys=at(0.0), inMedium=w, outMedium=n),
                             batoid.RefractiveInterface(batoid.Sphere(r1) if not s['bumps'] else mirror(2, D, r1, rng, True), name='L2', coordSys=at(-.05), inMedium=n, outMedium=w)], name='L')
            items = screens(s, D, 'B', at(.1), rng) + [L, batoid.Detector(batoid.Plane(), name='D', coordSys=at(-f * .99 + df))]
            field = .008
        kw.setdefault('stopSurface', stop)
        o = batoid.CompoundOptic(items, **kw)
    mv, d = s['moved'], o.items[-1].name
    if t == 'yaml' and mv == 'part': mv = 'no'
    if s['kind'] == 'exit' and mv == 'turn': mv = 'shift'
    if mv == 'shift': o = o.withGlobalShift(rng.normal(size=3) * (3 if s['kind'] != 'exit' else np.array([0, 0, 3])))
    if mv == 'turn': o = o.withLocalRotation(rot_random(rng)) if rng.integers(2) else o.withGlobalShift(rng.normal(size=3)).withLocalRotation(batoid.RotX(float(rng.uniform(-.6, .6))) @ batoid.RotZ(2.0))
    if mv == 'detector' or mv == 'part':
        full = [k for k in o.itemDict if k.split('.')[-1] == d][0]
        o = o.withLocallyShiftedOptic(full, list(rng.normal(size=3) * [1e-2, 1e-2, 2e-4]))
        o = o.withLocallyRotatedOptic(full, batoid.RotZ(float(rng.uniform(-3, 3))) @ batoid.RotX(float(rng.normal() * .02)))
    if mv == 'part': o = o.withLocallyShiftedOptic(o.name + '.' + ([i.name for i in o.items if i.name != 'B'][0]), list(rng.normal(size=3) * [2e-4, 2e-4, 1e-5]))
    return o, field


def pq(rv): return rays(rv)


def lattice(s, rng, rec):
    shape = s['sides'][:s['dims']]
    d, sq = s['dims'], s['pv']
    pv = rng.normal(size=(d, d)) * float(rng.choice([1, 1e-6, 1e3]))
    if sq == 'ints': pv = rng.integers(-5, 6, (d, d))
    if sq == 'short': pv = rng.normal(size=(max(d - 1, 1) if d > 1 else 2, d))
    if sq == 'long': pv = rng.normal(size=(d, d + 1))
    if sq == 'square': pv = rng.normal(size=(d + 1, d + 1))
    arg = pv.tolist() if sq == 'list' else pv
    if d == 1 and sq == 'flat': arg = pv[0]
    rec.update(shape=shape, pv=mat(pv), ok=list(np.shape(pv)) == [d, d])
    data = rng.normal(size=shape)
    if sq == 'ints': data = np.ma.masked_array(data, mask=rng.uniform(size=shape) > .5)
    keep = np.array(data)
    try:
        L = batoid.Lattice(data, arg)
    except ValueError:
        rec['exc'] = 'ValueError'; return
    c = L.coords
    rec.update(cshape=list(c.shape), coords=mat(c.reshape(-1, d)), fn=mat(batoid.lattice.primitiveToLattice(np.array(pv), shape).reshape(-1, d)),
               kept=bool(np.array_equal(np.array(L.array), keep)), pvout=mat(L.primitiveVectors), again=bool(np.array_equal(L.coords, c)))


def one(s, rng, rec):
    kind = s['kind']
    if kind == 'lattice': return lattice(s, rng, rec)
    o, field = telescope(s, rng)
    pic = repr(o)
    th = {'axis': (0.0, 0.0), 'x': (1, 0), 'y': (0, -1)}.get(s['field'], tuple(rng.normal(size=2)))
    h = np.hypot(*th)
    th = tuple(float(x * field * rng.uniform(.1, 1) / h) if h else 0.0 for x in th)
    if kind in ('dkdu', 'drdth') and s['field'] == 'any': th = (field * float(rng.uniform(-.7, .7)), field * float(rng.uniform(-.7, .7)))
    lam = 620e-9 if s['tel'] == 'yaml' else float(rng.uniform(4e-7, 1e-6))
    kw = {}
    p = 'postel' if s['dflt'] else s['p']
    if not s['dflt']: kw['projection'] = p
    ref = s['ref'] if kind == 'spot' or s['ref'] != 'none' else 'mean'
    if ref == 'default': ref = 'chief'
    elif kind != 'dz' or ref != 'none': kw['reference'] = ref
    if kind in ('dkdu', 'drdth', 'exit'): kw.pop('reference', None)
    nx = s['nx'] if kind != 'huygens' else min(s['nx'], 6)
    if kind == 'zernike': nx = max(nx, 7)
    std = {}                                        # sizes left to their documented defaults
    if s['std']:
        if kind in ('spot', 'wave'): nx = 32
        if kind == 'gq': s = dict(s, rings=6, jmax=22, spokes='default'); std = dict(rings=0, jmax=0)
        if kind in ('ta', 'xy'): s = dict(s, nrad=6, naz=36); std = dict(nrad=0, naz=0)
    cos = batoid.utils.fieldToDirCos(*th, projection=p)
    D = o.pupilSize
    rec.update(ref=ref, nx=nx, lam=num(lam), size=num(D), tel=s['tel'], th=nums(th), p=p)
    grid = lambda: o.trace(RV.asGrid(optic=o, wavelength=lam, dirCos=cos, nx=nx))
    chief = o.trace(RV.fromStop(0.0, 0.0, optic=o, wavelength=lam, dirCos=cos))
    rec['chief'] = pq(chief)
    again = lambda f, *a, **k: f(*a, **k)
    call = lambda f, **more: f(o, *th, lam, **kw, **more)
    stop = lambda rv: (lambda e: [nums(q) for q in zip(e.x, e.y)])(o.stopSurface.surface.intersect(rv.copy(), coordSys=o.stopSurface.coordSys))
    eps = {'0': 0.0, 'optic': float(getattr(o, 'pupilObscuration', .3)), 'some': .35}[s['eps']]
    rad = {'given': float(rng.uniform(2, 30)), 'negative': -float(rng.uniform(2, 30)), 'int': int(rng.integers(3, 20)), 'optic': None}[s['radius']]
    if s['tel'] == 'lens' and rad is None: pass
    rec.update(R=num(o.sphereRadius if rad is None else rad), eps=num(eps), jmax=s['jmax'])
    sr = {} if rad is None else {'sphereRadius': rad}
    nn = {} if nx == 32 else {'nx': nx}
    if kind in ('spot', 'wave', 'fft', 'huygens', 'zernike'): rec['b'] = pq(grid())
    same = True
    if kind == 'spot':
        x, y = call(A.spot, **nn); x2, y2 = call(A.spot, **nn)
        same = np.array_equal(x, x2) and np.array_equal(y, y2)
        rec.update(x=nums(x), y=nums(y))
    elif kind == 'wave':
        w, w2 = call(A.wavefront, **nn, **sr), call(A.wavefront, **nn, **sr)
        a, m = w.array, np.ma.getmaskarray(w.array)
        same = np.array_equal(np.asarray(a.filled(0)), np.asarray(w2.array.filled(0)))
        rec.update(shape=list(a.shape), w=nums(a.data), mask=[bool(q) for q in m.ravel()], pv=mat(w.primitiveVectors))
    elif kind == 'fft':
        more = {} if s['pad'] == 2 else {'pad_factor': s['pad']}
        w = call(A.wavefront, **nn, **sr)
        f = call(A.fftPSF, **nn, **sr, **more)
        g = call(A.fftPSF, **nn, **sr, **more)
        same = np.allclose(f.array, g.array, rtol=1e-12, atol=0)
        P = s['pad'] * nx
        cells = [(P // 2, P // 2)] + [tuple(int(q) for q in rng.integers(0, P, 2)) for _ in range(5)]
        rec.update(w=nums(w.array.data), mask=[bool(q) for q in np.ma.getmaskarray(w.array).ravel()], P=P, shape=list(f.array.shape), psf=nums(f.array), cells=[list(c) for c in cells],
                   pv=mat(f.primitiveVectors), dkdu=mat(A.dkdu(o, *th, lam, projection=p)))
    elif kind == 'huygens':
        more, pvs = {}, []
        d = float(rng.uniform(2e-6, 2e-5))
        if s['out'] == 'scalar': more['dx'] = d; pvs = [[d, 0], [0, d]]
        if s['out'] == 'two': more.update(dx=d, dy=d * .7); pvs = [[d, 0], [0, d * .7]]
        if s['out'] in ('vectors', 'lists'):
            v = rng.normal(size=(2, 2)) * d; pvs = v
            more.update(dx=v[0], dy=v[1]) if s['out'] == 'vectors' else more.update(dx=v[0].tolist(), dy=v[1].tolist())
        n = nx
        if s['nout']: n = s['nout'] + 1; more['nxOut'] = n
        h = call(A.huygensPSF, **nn, **more)
        N = h.array.shape[0]
        cells = [(N // 2, N // 2)] + [tuple(int(q) for q in rng.integers(0, N, 2)) for _ in range(4)]
        rec.update(shape=list(h.array.shape), nout=n, asked=mat(pvs) if len(pvs) else [], pv=mat(h.primitiveVectors), psf=nums(h.array), cells=[list(c) for c in cells], P=2 * nx,
                   dkdu=mat(A.dkdu(o, *th, lam, projection=p)))
    elif kind == 'zernike':
        rec['stop'] = stop(RV.asGrid(optic=o, wavelength=lam, dirCos=cos, nx=nx))
        w = call(A.wavefront, **nn, **sr)
        rec.update(w=nums(w.array.data), mask=[bool(q) for q in np.ma.getmaskarray(w.array).ravel()])
        try: rec['z'] = nums(call(A.zernike, **nn, **sr, jmax=s['jmax'], eps=eps))
        except RuntimeError as e: rec.update(z=[], exc='Rank' if 'Rank' in str(e) else exc_text(e))
    elif kind == 'gq':
        sp = {} if s['spokes'] == 'default' else {'spokes': 2 * s['rings'] + int(rng.integers(1, 4))}
        rv = RV.asSpokes(optic=o, wavelength=lam, dirCos=cos, inner=eps * D / 2, rings=s['rings'], spacing='GQ', **sp)
        rec.update(stop=stop(rv), rings=s['rings'], nspokes=sp.get('spokes', 2 * s['rings'] + 1)); o.trace(rv); rec['b'] = pq(rv)
        try: rec['z'] = nums(call(A.zernikeGQ, **{k: v for k, v in dict(rings=s['rings'], jmax=s['jmax']).items() if k not in std}, **sp, **sr, eps=eps))
        except ValueError as e: rec.update(z=[], exc='failed' if 'failed rays' in str(e) else exc_text(e))
    elif kind in ('ta', 'xy'):
        rv = RV.asPolar(optic=o, wavelength=lam, dirCos=cos, nrad=s['nrad'], naz=s['naz'])
        rec['stop'] = stop(rv); o.trace(rv); rec['b'] = pq(rv)
        size = {k: v for k, v in dict(nrad=s['nrad'], naz=s['naz'], jmax=s['jmax'], eps=eps).items() if k not in std}
        rec['inclvig'] = False
        try:
            if kind == 'ta':
                more = {} if s['flen'] == 'own' else {'focal_length': float(rng.uniform(5, 20))}
                rec.update(drdth=mat(A.drdth(o, *th, lam, projection=p)), f=nums(list(more.values())))
                rec['z'] = nums(call(A.zernikeTA, **size, **more))
            else:
                if s['inclvig']: size['include_vignetted'] = True; rec['inclvig'] = True
                a, b = call(A.zernikeXYAberrations, **size)
                rec.update(zx=nums(a), zy=nums(b))
        except RuntimeError as e: rec['exc'] = 'Rank' if 'Rank' in str(e) else exc_text(e)
    elif kind == 'dz':
        r = 2 + s['rings'] % 2
        sp = 2 * r + 1 if s['spokes'] == 'default' else 2 * r + 2
        L, _ = np.polynomial.legendre.leggauss(r)
        pts = [(np.sqrt((1 + l) / 2) * field, 2 * np.pi * k / sp) for l in L for k in range(sp)]
        gkw = dict(kw, jmax=min(s['jmax'], 5), eps=eps, **sr)
        rec.update(rings=r, nspokes=sp, field=num(field), kmax=s['nrad'] + 1, nodes=nums(L), pts=[], gq=[])
        for q, a in pts:
            x, y = q * np.cos(a), q * np.sin(a)
            rec['pts'].append(nums([x, y]))
            rec['gq'].append(nums(A.zernikeGQ(o, float(x), float(y), lam, rings=r, spokes=sp, **gkw)))
        rec['z'] = mat(A.doubleZernike(o, field, lam, rings=r, kmax=rec['kmax'], **({'spokes': sp} if s['spokes'] != 'default' else {}), **gkw))
    elif kind == 'dkdu':
        size = {} if s['flen'] == 'own' else dict(nrad=s['nrad'] + 1, naz=s['naz'])
        rv = RV.asPolar(optic=o, wavelength=lam, dirCos=cos, **dict(dict(nrad=6, naz=36), **size))
        rec.update(stop=[nums(q) for q in zip(rv.x, rv.y)]); o.trace(rv); rec['b'] = pq(rv)
        rec['out'] = mat(call(A.dkdu, **size))
    elif kind == 'drdth':
        size = {} if s['flen'] == 'own' else dict(nrad=s['nrad'], naz=s['naz'])
        st = 2e-5
        def at(dx, dy):
            c = batoid.utils.fieldToDirCos(th[0] + dx, th[1] + dy, projection=p)
            return pq(o.trace(RV.asPolar(optic=o, wavelength=lam, dirCos=c, **dict(dict(nrad=6, naz=36), **size))))
        rec.update(b=at(0, 0), x0=at(-st, 0), x1=at(st, 0), y0=at(0, -st), y1=at(0, st), step=num(st))
        rec.update(out=mat(call(A.drdth, **size)), inv=mat(call(A.dthdr, **size)), flen=num(call(A.focalLength, **size)))
    elif kind == 'exit':
        sm = float(10 ** rng.uniform(-3.5, -2.3)) if s['flen'] == 'given' else np.deg2rad(1 / 3600)
        rv = RV.fromFieldAngles(np.array([0, 0, sm, -sm]), np.array([sm, -sm, 0, 0]), optic=o, wavelength=lam, projection=p)
        rv = o.trace(rv).toCoordSys(batoid.CoordSys())
        rec.update(b=pq(rv), out=nums(A.exitPupilPos(o, lam, **({'smallAngle': sm} if s['flen'] == 'given' else {}), **({'projection': p} if not s['dflt'] else {}))))
    rec.update(kept=repr(o) == pic, same=bool(same))


for s in scenarios(scen):
    rng = np.random.default_rng([SEED, 2300, s['id']])
    log.current(s)
    rec = {'id': s['id'], 'kind': s['kind'], 'exc': '', 'tag': '', 'kept': True, 'same': True}
    try:
        one(s, rng, rec)
    except Exception as e:
        rec['exc'] = exc_text(e)
        rec['trace'] = traceback.format_exc()[-900:]
    log.put(rec)
log.close()
