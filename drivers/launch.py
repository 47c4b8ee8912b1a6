"""Launches real bundles and logs them with what was asked for."""
import warnings
from vlib.drv import *
from vlib import surf
warnings.simplefilter('ignore')
scen, log, argv = args()
RV = batoid.RayVector


def medium(k, rng):
    if k == 'const':
        n = float(rng.choice([1.0, 1.5, round(float(rng.uniform(1, 2)), 3)]))
        return batoid.ConstMedium(n), {'k': k, 'p': [num(n)]}
    if k == 'table':
        w, n = [2e-7, 6e-7, 1.5e-6], [float(x) for x in rng.uniform(1, 2, 3)]
        return batoid.TableMedium(w, n), {'k': k, 'w': nums(w), 'n': nums(n)}
    if k == 'sellmeier':
        p = [1.03961212, 0.231792344, 1.01046945, 0.00600069867, 0.0200179144, float(rng.uniform(80, 120))]
        return batoid.SellmeierMedium(*p), {'k': k, 'p': nums(p)}
    if k == 'sumita':
        p = [float(rng.uniform(2, 3)), -.01, .01, 5e-4, 1e-5, 1e-6]
        return batoid.SumitaMedium(*p), {'k': k, 'p': nums(p)}
    p = [float(rng.uniform(60, 100)), float(rng.uniform(260, 300)), float(rng.uniform(.2, 1.5))]
    return batoid.Air(*p), {'k': 'air', 'p': nums(p)}


SURF = {'plane': {}, 'sph': {'shape': 'sphere'}, 'par': {}, 'quad': {'shape': 'hyperbola'}, 'tilt': {'shape': 'sphere'}, 'zern': {'shape': 'sphere', 'annular': False, 'origin': False, 'nz': 6}, 'asph': {'shape': 'sphere', 'imin': 2, 'nco': 2}}


def stopsurf(k, rng):
    s, rec, _ = surf.build(dict(SURF[k], k=k, sgn=int(rng.choice([-1, 1])), int=False), rng, 4.0, True)
    return s, rec


def tilt(rng, a):
    return batoid.RotX(float(rng.uniform(-a, a))) @ batoid.RotY(float(rng.uniform(-a, a))) @ batoid.RotZ(float(rng.uniform(-3, 3)))


def onto(d, rng):
    """A rotation whose z axis is along d."""
    a = np.cross(d, rng.normal(size=3)); a /= np.linalg.norm(a)
    return np.column_stack([a, np.cross(d, a), d])


def wants(x): return x in ('given', 'both', 'zero')


def angles_of(p, d):
    return batoid.utils.dirCosToField(d[0], d[1], d[2], projection=p)


def one(s, rng, rec):
    how = s['how']
    if s['big']:
        m = {'stop': 150, 'angles': 150, 'fan': 2}.get(how, 1)
        if how in ('grid', 'fan'): s['ints'] = False          # integer steps of 1 would leave the surface
        s.update(nx=s['nbig'] * m, ny=s['mbig'] if s['ny'] else 0, nrad=s['nrad'] + 6, naz=s['naz'] + 30, nr=s['nr'] + 6, ns=s['ns'] + 10)
    use_optic = any(s[k] in ('optic', 'both') for k in ('stop', 'cs', 'medium', 'back', 'size', 'inner'))
    bare = how == 'grid' and s['stop'] == 'none'          # an optic without a stop surface
    field = s['dir'] != 'cos' or how == 'angles'
    rec['given'], rec['optic'] = {k: [] for k in ('stop', 'cs', 'medium', 'back')}, {k: [] for k in ('stop', 'cs', 'medium', 'back', 'pupil', 'obsc')}
    # frames: those that will be used must face each other
    flatstop = not (wants(s['stop']) or (use_optic and not bare))
    C = {}
    for who in ('given', 'optic'):
        C[who] = batoid.CoordSys(rng.normal(size=3) * 2, tilt(rng, .4) if flatstop else rot_random(rng))
    cs_given, cs_opt = wants(s['cs']) and how != 'angles', use_optic
    cs = C['given'] if cs_given else C['optic'] if cs_opt else batoid.CoordSys()
    # direction, in cs
    if field:
        u = rng.uniform(-.35, .35, 2)
        if s['zero']: u[int(rng.integers(2))] = 0.0
        if s['zero'] and rng.integers(3) == 0: u[:] = 0
        d = np.array(batoid.utils.fieldToDirCos(float(u[0]), float(u[1]), projection=s['p']))
    elif flatstop:
        g = np.array([*rng.uniform(-.5, .5, 2), float(rng.choice([-1, 1]))])
        d = cs.rot.T @ (g / np.linalg.norm(g))
    else:
        d = {'x': [1., 0, 0], '-x': [-1., 0, 0], 'y': [0., 1, 0], 'z': [0., 0, 1], '-z': [0., 0, -1]}.get(s['axis'], rng.normal(size=3))
        d = np.array(d); d /= np.linalg.norm(d)
    stops = {}
    for who in ('given', 'optic'):
        sf, sr = stopsurf(s['surf'], rng)
        R = cs.rot @ onto(d * rng.choice([-1, 1]), rng) @ batoid.RotX(float(rng.uniform(-.3, .3))) if not field or s['axis'] == 'any' else cs.rot @ tilt(rng, .3)
        f = batoid.CoordSys(rng.normal(size=3) * 2, R)
        stops[who] = batoid.Interface(sf, coordSys=f), {'s': sr, 'cs': frame(f)}
    kw = {}
    med = {w: medium(s['med'] if w == 'given' else 'const' if rng.integers(2) else 'sellmeier', rng) for w in ('given', 'optic')}
    back = {w: float(rng.uniform(.5, 30)) for w in ('given', 'optic')}
    if s['back'] == 'zero': back['given'] = 0 if s['ints'] else 0.0
    elif s['ints']: back['given'] = int(back['given'])
    pupil, obsc = float(rng.uniform(1, 4)), float(rng.uniform(.1, .6))
    if wants(s['stop']): kw['stopSurface'] = stops['given'][0]; rec['given']['stop'] = [stops['given'][1]]
    if cs_given: kw['coordSys'] = cs; rec['given']['cs'] = [frame(cs)]
    if wants(s['medium']): kw['medium'] = med['given'][0]; rec['given']['medium'] = [med['given'][1]]
    if wants(s['back']): kw['backDist'] = back['given']; rec['given']['back'] = [num(back['given'])]
    opt = None
    if use_optic:
        a = dict(pupilSize=pupil, backDist=back['optic'], inMedium=med['optic'][0], coordSys=C['optic'], name='o')
        if not bare: a['stopSurface'] = stops['optic'][0]; rec['optic']['stop'] = [stops['optic'][1]]
        if s['inner'] in ('optic', 'both', 'zero'): a['pupilObscuration'] = obsc; rec['optic']['obsc'] = [num(obsc)]
        if rng.integers(2): opt = batoid.CompoundOptic([batoid.Mirror(batoid.Plane(), name='m', coordSys=C['optic'])], **a)
        else: opt = batoid.Mirror(batoid.Paraboloid(20.0), **a)
        rec['optic'].update(cs=[frame(opt.coordSys)], medium=[med['optic'][1]], back=[num(opt.backDist)], pupil=[num(pupil)])
        kw['optic'] = opt
    lam = float(rng.uniform(3e-7, 1.2e-6))
    if s['bad'] != 'lambda': kw['wavelength'] = lam
    rec['lam'] = num(lam)
    fl = {'default': 1, 'int': 3, 'float': float(rng.uniform(.1, 5)), 'zero': 0}[s['flux']]
    if s['flux'] != 'default': kw['flux'] = fl
    handed = []
    hand = lambda a: (handed.append((a, np.array(a, copy=True))), a)[1]
    if how != 'angles':
        if not field:
            v = d * (float(rng.uniform(.2, 7)) if s['zero'] else 1.0)
            kw['dirCos'] = hand(v.copy()) if rng.integers(2) else tuple(v) if rng.integers(2) else [float(x) for x in v]
            rec['dir'] = {'k': 'cos', 'd': nums(kw['dirCos'])}
        else:
            kw.update(theta_x=float(u[0]), theta_y=float(u[1]))
            if s['p'] != 'postel' or rng.integers(2): kw['projection'] = s['p']
            rec['dir'] = {'k': 'field', 'p': s['p'], 'u': num(u[0]), 'v': num(u[1])}
    pupil_size = float(rng.uniform(.5, 4))
    rec.update(nrandom=0, pts=[], outer=[], inner=[], rays2=True)
    again = None
    if how in ('grid', 'fan'):
        nx, ny = s['nx'], s['ny']
        g = {k: [] for k in ('nx', 'ny', 'dx', 'dy', 'lx', 'ly')}
        ask = s['ask'] if how == 'grid' else 'nl' if s['ask'] == 'ld' else s['ask']
        vec = s['vecs'] if ask != 'ld' and how == 'grid' else 'scalar'
        if s['ints']: pupil_size = int(pupil_size) + 1
        def length(x, q, axis):
            """argument and record of a length along the x or y side"""
            if q == 'scalar': return x, [num(x)]
            w = np.array([x, float(rng.uniform(-.4, .4) * x)]) if axis == 0 else np.array([float(rng.uniform(-.4, .4) * x), x])
            return hand(w), nums(w)
        if how == 'fan': nx, ny = max(nx, 1), max(ny, 1)
        if how == 'fan' and nx == ny == 1: nx = 3
        if ask in ('nd', 'nl'):
            kw['nx'] = nx; g['nx'] = [nx]
            if ny or how == 'fan': kw['ny'] = ny; g['ny'] = [ny]
        if ask in ('nd', 'ld'):
            x = round(float(rng.uniform(.05, .4)), 3) if not s['ints'] else 1
            if s['big'] and ask == 'nd': x = x * 8 / max(nx, ny)
            kw['dx'], g['dx'] = length(x, 'vector' if vec != 'scalar' else vec, 0)
            if vec == 'both' or (vec == 'scalar' and rng.integers(2)): kw['dy'], g['dy'] = length(x * (1 if how == 'fan' else 1.5), 'vector' if vec == 'both' else 'scalar', 1)
        if ask == 'ld':
            m = 2 * int(rng.integers(1, 4)); kw['lx'] = m * kw['dx']; g['lx'] = [num(kw['lx'])]
            if 'dy' in kw: kw['ly'] = 2 * int(rng.integers(1, 4)) * kw['dy']; g['ly'] = [num(kw['ly'])]
            elif rng.integers(2): kw['ly'] = 2 * int(rng.integers(1, 4)) * kw['dx']; g['ly'] = [num(kw['ly'])]
        if ask == 'nl' and not (use_optic and s['size'] in ('optic', 'none')):
            kw['lx'], g['lx'] = length(pupil_size, 'vector' if vec != 'scalar' else vec, 0)
            if vec == 'both' or (vec == 'scalar' and rng.integers(2)): kw['ly'], g['ly'] = length(pupil_size * .7, 'vector' if vec == 'both' else 'scalar', 1)
        elif ask == 'nl' and rng.integers(2): kw['ly'], g['ly'] = length(pupil_size * .7, 'scalar', 1)
        if s['rand'] and how == 'grid' and nx > 1 and ny != 1:
            kw['nrandom'] = rec['nrandom'] = int(rng.integers(1, 30)) * (400 if s['big'] else 1)
        rec['g'] = g
        if s['bad'] == 'three':
            kw['nx'] = 4; kw['dx'] = .1; kw['lx'] = .2
        if s['bad'] == 'one':
            for k in ('nx', 'dx', 'lx'): kw.pop(k, None)
            if not use_optic: kw['nx'] = 4
        f = RV.asGrid if how == 'grid' else RV.asFan
    elif how in ('polar', 'spokes'):
        outer, inner = pupil_size, float(rng.uniform(.05, .7) * pupil_size)
        if s['ints']: outer, inner = 3, 1
        if use_optic: outer = max(outer, 3 * pupil)                 # more than the optic's obscuration
        if not use_optic or wants(s['size']): kw['outer'] = outer; rec['outer'] = [num(outer)]
        else: inner = float(rng.uniform(.05, .7) * pupil / 2)
        if s['inner'] == 'zero': inner = 0 if s['ints'] else 0.0
        if wants(s['inner']): kw['inner'] = inner; rec['inner'] = [num(inner)]
        if how == 'polar':
            f = RV.asPolar
            rec.update(nrad=s['nrad'], naz=s['naz'], kfold=6)
            if not rec['inner'] and not rec['optic']['obsc'] or inner == 0: rec['nrad'] = max(2, s['nrad'])   # one ring of radius both outer and 0 is nothing definite
            if s['rand']: kw['nrandom'] = rec['nrandom'] = int(rng.integers(1, 30)) * (400 if s['big'] else 1)
            else:
                kw.update(nrad=rec['nrad'], naz=s['naz'])
                if s['kfold'] != 6 or rng.integers(2): kw['kfold'] = rec['kfold'] = s['kfold']
        else:
            f = RV.asSpokes
            r, sp = s['rings'], s['spokes']
            if sp == 'none' and r != 'GQ': sp = 'int'
            if r == 'array':
                a = rng.permutation(np.linspace(.2, .9, s['nr'])) * outer; kw['rings'] = hand(a); rec['rings'] = {'k': r, 'a': nums(a)}
            else:
                kw['rings'] = s['nr']; rec['rings'] = {'k': r, 'n': s['nr']}
                if r == 'GQ': kw['spacing'] = 'GQ'
                elif rng.integers(2): kw['spacing'] = 'uniform'
            if sp == 'array': a = np.arange(s['ns']) * .8 + float(rng.uniform(0, 1)); kw['spokes'] = hand(a); rec['spokes'] = {'k': sp, 'a': nums(a)}
            elif sp == 'int': kw['spokes'] = s['ns']; rec['spokes'] = {'k': sp, 'n': s['ns']}
            else: rec['spokes'] = {'k': sp}
    elif how == 'stop':
        n = s['nx']
        x, y = rng.uniform(-1.5, 1.5, (2, n))
        if s['ints']: x, y = np.round(x), np.round(y)
        X, Y = x.copy(), y.copy()
        if s['ints']: X, Y = X.astype(int), Y.astype(int)
        elif s['ny'] % 3 == 0: X, Y = X.tolist(), Y.tolist()
        elif s['ny'] % 3 == 1 and n == 1: X, Y = float(x[0]), float(y[0])
        if isinstance(X, np.ndarray): hand(X), hand(Y)
        rec['pts'] = [nums(p) for p in zip(x, y)]
        f = lambda **k: RV.fromStop(X, Y, **k)
    else:
        n = s['nx']
        tx, ty = rng.uniform(-.35, .35, (2, n))
        if s['zero']: tx[0] = ty[0] = 0.0
        if s['ints']: tx, ty = np.zeros((2, n), int)
        if rng.integers(3) == 0: ty = tx.copy() if rng.integers(2) else tx     # the same array for both
        hand(tx), hand(ty)
        if s['p'] != 'postel' or rng.integers(2): kw['projection'] = s['p']
        x, y = (0, 0) if rng.integers(2) else rng.uniform(-1, 1, 2)
        if (x, y) != (0, 0): kw.update(x=float(x), y=float(y))
        rec['pts'] = [nums([x, y])] * n
        rec['dirs'] = [{'k': 'field', 'p': s['p'], 'u': num(a), 'v': num(b)} for a, b in zip(tx, ty)]
        f = lambda **k: RV.fromFieldAngles(tx, ty, **k)
    if rec['nrandom']:
        seed = int(rng.integers(1 << 30))
        kw['rng'] = {'int': seed, 'gen': None, 'none': None}[s['rng']]
        if s['rng'] == 'gen': kw['rng'] = np.random.default_rng(seed)
    pic = repr(opt)
    rv = f(**kw)
    if rec['nrandom'] and s['rng'] != 'none':
        if s['rng'] == 'gen': kw['rng'] = np.random.default_rng(seed)
        rec['rays2'] = bool(f(**kw) == rv)
    rec['kept'] = all(np.array_equal(a, b) and a.dtype == b.dtype for a, b in handed) and repr(opt) == pic
    rec['frame'] = frame(rv.coordSys)
    st = kw.get('stopSurface') or (stops['optic'][0] if use_optic and not bare else batoid.Interface(batoid.Plane()))
    hit = st.surface.intersect(rv.copy(), coordSys=st.coordSys)
    gq = how == 'spokes' and rec['rings']['k'] == 'GQ'
    n = rec['total'] = len(rv)
    idx = sorted({0, n - 1, n // 2, *(int(x) for x in rng.integers(0, n, 22))}) if s['big'] and n else list(range(n))
    rec['idx'] = [j + 1 for j in idx]
    if how in ('polar', 'spokes') and not rec['nrandom']: rec['hs'] = [nums([hit.x[j], hit.y[j], rv.flux[j]]) for j in range(n)]
    rec['rays'] = [{'r': nums(rv.r[j]), 'v': nums(rv.v[j]), 't': num(rv.t[j]), 'lam': num(rv.wavelength[j]), 'flux': num(rv.flux[j]), 'want': num(rv.flux[j] if gq else fl),
                    'vig': bool(rv.vignetted[j]), 'fail': bool(rv.failed[j]), 'h': nums([hit.x[j], hit.y[j]])} for j in idx]


for s in scenarios(scen):
    rng = np.random.default_rng([SEED, 1600, s['id']])
    log.current(s)
    if s['bad'] in ('three', 'one') and s['how'] != 'grid': s['bad'] = ''
    rec = {'id': s['id'], 'how': s['how'], 'exc': '', 'tag': '', 'bad': s['bad'], 'kept': True}
    try:
        one(s, rng, rec)
    except Exception as e:
        rec['exc'] = 'ValueError' if s['bad'] and isinstance(e, ValueError) else exc_text(e)
        rec['trace'] = traceback.format_exc()[-600:]
    log.put(rec)
log.close()
