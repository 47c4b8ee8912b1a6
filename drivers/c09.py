from vlib.drv import *
scen, log, _ = args()
CUBE = cube_rots()


def pts(rng, n, mode):
    if mode in ('cube', 'ints'):
        return rng.integers(-4, 5, size=(n, 3)).astype(float)
    return rng.normal(size=(n, 3)) * 3


def rays(p, v, cs, rng):
    n = len(p)
    return batoid.RayVector(p[:, 0], p[:, 1], p[:, 2], v[:, 0], v[:, 1], v[:, 2],
                            t=rng.normal(size=n), wavelength=500e-9, flux=rng.uniform(size=n),
                            vignetted=rng.integers(0, 2, size=n) > 0, failed=rng.integers(0, 4, size=n) == 0,
                            coordSys=cs)


def meta(rv):
    return (rv.t.tolist(), rv.wavelength.tolist(), rv.flux.tolist(), rv.vignetted.tolist(), rv.failed.tolist())


for s in scenarios(scen):
    rng = np.random.default_rng([SEED, s['id']])
    log.current(s)
    mode = s['mode']
    if mode in ('cube', 'ints'):
        rots = CUBE
        shifts = [rng.integers(-3, 4, size=3).astype(float) for _ in range(8)]
    elif mode == 'small':
        rots = [batoid.RotX(a) @ batoid.RotY(b) for a, b in rng.normal(size=(24, 2)) * 1e-5]
        shifts = [rng.normal(size=3) * 1e-4 for _ in range(8)]
    else:
        rots = [rot_random(rng) for _ in range(24)]
        shifts = [rng.normal(size=3) * 10 for _ in range(8)]
    if mode == 'ints':      # integer-typed arrays, lists and tuples are legitimate arguments too
        shifts = [[int(x) for x in v] for v in shifts]
        shifts = [tuple(v) if j % 2 else np.array(v) for j, v in enumerate(shifts)]
    cents = [None] + [list(rng.integers(-2, 3, size=3).astype(float)) if mode != 'generic' else rng.normal(size=3) for _ in range(5)]
    G = batoid.CoordSys()
    if mode == 'ints':
        regs = [None, batoid.CoordSys([1, 2, 3], rots[5].astype(int)), batoid.CoordSys(origin=(0, 0, 1)), batoid.CoordSys(rot=rots[7].astype(int))]
    else:
        regs = [None, batoid.CoordSys(), batoid.CoordSys(shifts[0], rots[3]), batoid.CoordSys(shifts[1])]
    out = {'id': s['id'], 'tag': mode, 'ev': []}
    for e in s['ev']:
        a, b = e['a'], e['b']
        src = regs[a]
        R, d = rots[e['R'] - 1], shifts[e['d'] - 1]
        c = cents[e['c']]
        cf = regs[e['f']] if e['f'] else None
        before = [(r.origin.tolist(), r.rot.tolist()) for r in regs[1:]]
        rec = {'k': 'op', 'op': e['op'], 'src': frame(src), 'R': mat(R), 'd': nums(d),
               'c': nums(c) if c is not None else ['0', '0', '0'], 'exc': ''}
        try:
            kw = {}
            if c is not None: kw['rotCenter'] = c
            if cf is not None: kw['coordSys'] = cf
            if e['op'] == 'sg': new = src.shiftGlobal(d)
            elif e['op'] == 'sl': new = src.shiftLocal(d)
            elif e['op'] == 'rg': new = src.rotateGlobal(R, **kw)
            else: new = src.rotateLocal(R, **kw)
            dflt = G if e['op'] == 'rg' else src
            rec['cf'] = frame(cf if cf is not None else dflt)
            rec['out'] = frame(new)
            rec['axes'] = [nums(new.xhat), nums(new.yhat), nums(new.zhat)]
            # results must not share memory with the source
            rec['frozen'] = before == [(r.origin.tolist(), r.rot.tolist()) for r in regs[1:]]
            if new.origin.dtype == float and new.rot.dtype == float and (rng.integers(0, 3) == 0):
                o2, r2 = new.origin.copy(), new.rot.copy()
                new.origin += 1.0
                new.rot += 1.0
                rec['frozen'] = rec['frozen'] and before == [(r.origin.tolist(), r.rot.tolist()) for r in regs[1:]]
                new.origin[:] = o2
                new.rot[:] = r2
            regs[b] = new
        except Exception as ex:
            rec['exc'] = exc_text(ex)
        out['ev'].append(rec)
    # transforms between the registers reached
    for (a, b, m) in ((1, 2, 3), (2, 3, 1), (3, 1, 2), (1, 1, 2)):
        A, B, M = regs[a], regs[b], regs[m]
        n = int(rng.integers(1, 5))
        p, v = pts(rng, n, mode), pts(rng, n, mode)
        rec = {'k': 'x', 'a': frame(A), 'b': frame(B), 'p': [nums(q) for q in p], 'v': [nums(q) for q in v], 'exc': ''}
        try:
            ct = batoid.CoordTransform(A, B)
            cp = p.copy()
            x, y, z = (np.ascontiguousarray(cp[:, j]) for j in range(3))
            f = ct.applyForwardArray(x, y, z)
            rec['fwd'] = mat(np.array(f).T)
            g = ct.applyReverseArray(x, y, z)
            rec['rev'] = mat(np.array(g).T)
            rec['back'] = mat(np.array(ct.applyReverseArray(*f)).T)
            via = batoid.CoordTransform(M, B).applyForwardArray(*batoid.CoordTransform(A, M).applyForwardArray(x, y, z))
            rec['via'] = mat(np.array(via).T)
            rec['sc'] = [nums(ct.applyForwardArray(*q)) for q in p]
            rec['scr'] = [nums(ct.applyReverseArray(*q)) for q in p]
            rv = rays(p, v, A, rng)
            m0 = meta(rv)
            r1 = ct.applyForward(rv.copy())
            rec['rvp'], rec['rvv'] = mat(r1.r), mat(r1.v)
            rvb = rays(p, v, B, rng)
            mb = meta(rvb)
            r2 = ct.applyReverse(rvb.copy())
            rec['rvrp'], rec['rvrv'] = mat(r2.r), mat(r2.v)
            r3 = rv.copy().toCoordSys(B)
            rec['tcp'], rec['tcv'] = mat(r3.r), mat(r3.v)
            rec['meta'] = meta(r1) == m0 and meta(r3) == m0 and meta(r2) == mb
            rec['sys'] = bool(r1.coordSys == B and r2.coordSys == A and r3.coordSys == B)
            rec['tg'] = mat(A.toGlobal(p))
            rec['tl'] = mat(A.toLocal(p))
            col = lambda q: [np.ascontiguousarray(q[:, j]) for j in range(3)]
            rows = lambda h: lambda *c: h(np.stack(c, axis=1))
            arr = lambda h: lambda *c: np.stack(h(*c), axis=1)
            import batoid.trace as trc

            def inplace(h):
                def g(*c):
                    c = [np.array(q, dtype=float) for q in c]
                    h(ct, *c)
                    return np.stack(c, axis=1)
                return g
            fi = inplace(getattr(trc, 'applyForwardTransformArrays', lambda c, *q: [w.__setitem__(slice(None), z) for w, z in zip(q, c.applyForwardArray(*q))]))
            ri = inplace(getattr(trc, 'applyReverseTransformArrays', lambda c, *q: [w.__setitem__(slice(None), z) for w, z in zip(q, c.applyReverseArray(*q))]))
            rec['inp'] = [mat(fi(*col(p))), mat(ri(*col(p))), mat(bulk(fi, rng, np.array(f).T, *col(p))), mat(bulk(ri, rng, np.array(g).T, *col(p)))]
            rec['bulk'] = [mat(bulk(h, rng, ref, *col(p))) for h, ref in ((arr(ct.applyForwardArray), np.array(f).T), (arr(ct.applyReverseArray), np.array(g).T),
                                                                         (rows(A.toGlobal), A.toGlobal(p)), (rows(A.toLocal), A.toLocal(p)))]
            rec['tg1'] = [nums(A.toGlobal(q)) for q in p]
            rec['tl1'] = [nums(A.toLocal(list(q))) for q in p]
            rec['frozen'] = bool(np.array_equal(cp, p) and frame(A) == rec['a'] and frame(B) == rec['b'])
        except Exception as ex:
            rec['exc'] = exc_text(ex)
        out['ev'].append(rec)
    # the same physical rays met by the same physical surface, expressed in two frames
    S = regs[2]
    p = np.column_stack([rng.uniform(-.5, .5, 3), rng.uniform(-.5, .5, 3), np.full(3, 5.0)])
    v = np.column_stack([rng.uniform(-.1, .1, 3), rng.uniform(-.1, .1, 3), np.full(3, -1.0)])
    v /= np.linalg.norm(v, axis=1)[:, None]
    surf = [batoid.Plane(), batoid.Sphere(20.0), batoid.Paraboloid(-15.0), batoid.Quadric(12.0, 0.3),
            batoid.Asphere(30.0, -0.6, [1e-4, 1e-5]), batoid.Zernike([0, 0, 1e-3, 0, 2e-3, 1e-3], R_outer=2.0)][s['id'] % 6]
    base = batoid.RayVector(p[:, 0], p[:, 1], p[:, 2], v[:, 0], v[:, 1], v[:, 2], wavelength=5e-7, coordSys=S)
    m2 = batoid.ConstMedium(1.4)
    for what in ('intersect', 'reflect', 'refract', 'obscure'):
        rec = {'k': 'inv', 'what': what, 'exc': ''}
        try:
            res = []
            for fr in (regs[1], regs[3]):
                rv = base.copy().toCoordSys(fr)
                if what == 'intersect': batoid.intersect(surf, rv, coordSys=S)
                elif what == 'reflect': batoid.reflect(surf, rv, coordSys=S)
                elif what == 'refract': batoid.refract(surf, rv, batoid.ConstMedium(1.0), m2, coordSys=S)
                else: batoid.Baffle(batoid.Plane(), obscuration=batoid.ObscCircle(0.2), coordSys=S).trace(rv)
                rv.toCoordSys(G)
                res.append((nums(np.column_stack([rv.r, rv.v, rv.t])), [bool(q) for q in np.concatenate([rv.vignetted, rv.failed])]))
            rec['one'], rec['f1'], rec['two'], rec['f2'] = res[0][0], res[0][1], res[1][0], res[1][1]
        except Exception as ex:
            rec['exc'] = exc_text(ex)
        out['ev'].append(rec)
    log.put(out)
log.close()
