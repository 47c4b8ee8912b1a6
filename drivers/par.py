"""Runs the same calls on bundles cut and ordered in every way, in processes with different numbers of threads."""
import pickle, subprocess, warnings
from vlib.tree import *
from vlib import surf
warnings.simplefilter('ignore')
THREADS = ['', '1', '2', '3', '8']
EXACT = ['intersect', 'reflect', 'obscure', 'frame', 'propagate', 'position', 'sag', 'surface', 'screen']
KINDS = ['plane', 'tilt', 'par', 'sph', 'quad', 'asph', 'zern', 'bic', 'sum']


def any_surface(s, rng, k=None):
    k = k or KINDS[s['kind'] % len(KINDS)]
    base = {'sgn': int(rng.choice([-1, 1])), 'int': False, 'shape': str(rng.choice(['ellipsoid', 'sphere', 'parabola', 'hyperbola'])), 'imin': 2, 'nco': 3,
            'annular': bool(rng.integers(2)), 'origin': False, 'nz': 9, 'nx': 6, 'ny': 5, 'given': 'none', 'pol': str(rng.choice(['nan', 'zero'])), 'k': k}
    if k == 'sum': base['parts'] = [dict(base, k='quad'), dict(base, k='zern')]
    return surf.build(base, rng, 2.0, True)[0]


def any_obsc(s, rng, depth=2):
    k = (s['kind'] // 7 + depth) % 9
    c = lambda a: float(rng.uniform(-a, a))
    if k == 0: return batoid.ObscCircle(.3, c(.3), c(.3))
    if k == 1: return batoid.ObscAnnulus(.1, .35, c(.2), c(.2))
    if k == 2: return batoid.ObscRectangle(.4, .3, c(.3), c(.3), c(2))
    if k == 3: return batoid.ObscRay(.2, c(3), c(.2), c(.2))
    if k == 4 or not depth:
        th = np.sort(rng.uniform(0, 6.28, 7)); return batoid.ObscPolygon(np.cos(th) * .4, np.sin(th) * .4)
    a, b = (any_obsc(dict(s, kind=int(rng.integers(1000))), rng, depth - 1) for _ in (0, 1))
    if k == 5: return batoid.ObscNegation(a)
    return (batoid.ObscUnion if k in (6, 8) else batoid.ObscIntersection)([a, b])


def system(rng):
    names = iter('abcdefghijklm')
    L = lambda k: {'k': k, 'n': next(names), 'skip': False}
    def item():
        if rng.integers(4) == 0: return {'k': 'L', 'n': next(names), 'skip': False, 'items': [L('R'), L('R')]}
        return L(str(rng.choice(list('MRBDS'))))
    t = {'k': 'C', 'n': 'top', 'skip': False, 'items': [item() for _ in range(int(rng.integers(2, 4)))]}
    b = Builder(rng)
    return b.build(t), b


def cols(rv):
    return np.column_stack([rv.x, rv.y, rv.z, rv.vx, rv.vy, rv.vz, rv.t, rv.wavelength, rv.flux, rv.vignetted, rv.failed]).astype(float)


def make(s):
    """(rows, call on some of the rows, giving a row of results each)"""
    rng = np.random.default_rng([SEED, 1800, s['id']])
    n, op = s['n'], s['op']
    if op == 'stop':
        P = rng.uniform(-1, 1, (n, 2)); st = batoid.Interface(any_surface(s, rng), coordSys=batoid.CoordSys([.1, .2, .3], batoid.RotX(.1)))
        cs, d, m = batoid.CoordSys(rng.normal(size=3), batoid.RotY(.2)), [.1, .05, -1.0], media_pool(rng)[int(rng.integers(5))]
        return P, lambda r: cols(batoid.RayVector.fromStop(r[:, 0].copy(), r[:, 1].copy(), wavelength=5e-7, stopSurface=st, coordSys=cs, dirCos=d, medium=m))
    if op == 'angles':
        P = rng.uniform(-.3, .3, (n, 2)); P[0] = 0
        p = str(rng.choice(['postel', 'zemax', 'gnomonic', 'stereographic', 'lambert', 'orthographic']))
        return P, lambda r: np.column_stack([cols(batoid.RayVector.fromFieldAngles(r[:, 0].copy(), r[:, 1].copy(), projection=p, wavelength=5e-7, x=.2, y=.1)),
                                             *batoid.utils.fieldToDirCos(r[:, 0], r[:, 1], projection=p)])
    if op == 'sag':
        f = any_surface(s, rng); P = rng.uniform(-1, 1, (n, 2)) * (4 if s['wild'] else .7)
        return P, lambda r: np.column_stack([f.sag(r[:, 0], r[:, 1]), f.normal(r[:, 0], r[:, 1])])
    if op == 'index':
        m = media_pool(rng)[s['kind'] % 5]; P = rng.uniform(2.5e-7 if s['wild'] else 3.1e-7, 1.1e-6, (n, 1))
        return P, lambda r: np.broadcast_to(m.getN(r[:, 0].copy()), (len(r),)).reshape(-1, 1)
    if op == 'contains':
        o = any_obsc(s, rng); P = rng.uniform(-.5, .5, (n, 2))
        return P, lambda r: o.contains(r[:, 0], r[:, 1]).astype(float).reshape(-1, 1)
    if op == 'array':
        P = rng.normal(size=(n, 3)); t = batoid.CoordTransform(batoid.CoordSys(rng.normal(size=3), rot_random(rng)), batoid.CoordSys(rng.normal(size=3), rot_random(rng)))
        return P, lambda r: np.column_stack([t.applyForwardArray(*r.T).T, t.applyReverseArray(*r.T).T])
    rv = bundle(rng, max(n, 6), s['wild'])
    rv = rv[:n]
    P, cs = cols(rv), rv.coordSys
    vec = lambda r: batoid.RayVector(*r[:, :9].T, vignetted=r[:, 9] != 0, failed=r[:, 10] != 0, coordSys=cs)
    where = batoid.CoordSys(rng.normal(size=3) * .05, batoid.RotX(.05) @ batoid.RotZ(1.0))
    if op in ('trace', 'full', 'reverse', 'path'):
        o, b = system(rng)
        if op == 'trace': return P, lambda r: cols(o.trace(vec(r)))
        if op == 'reverse': return P, lambda r: cols(o.trace(vec(r), reverse=True))
        if op == 'path':
            p = [str(x) for x in rng.permutation(list(b.leaf))]
            return P, lambda r: cols(o.trace(vec(r), path=p) if len(p) > 1 else o.trace(vec(r)))
        def full(r):
            f = o.traceFull(vec(r))
            return np.hstack([cols(q[k]) for q in f.values() for k in ('in', 'out')])
        return P, full
    f, m1, m2 = any_surface(s, rng), *[media_pool(rng)[int(rng.integers(5))] for _ in (0, 1)]
    coat = batoid.SimpleCoating(.3, .6)
    if op == 'intersect': return P, lambda r: cols(batoid.intersect(f, vec(r), coordSys=where, coating=coat if s['ignore'] else None))
    if op == 'reflect': return P, lambda r: cols(batoid.reflect(f, vec(r), coordSys=where, coating=coat if s['ignore'] else None))
    if op == 'refract': return P, lambda r: cols(batoid.refract(f, vec(r), m1, m2, coordSys=where, coating=coat if s['ignore'] else None))
    if op == 'rsplit': return P, lambda r: np.hstack([cols(q) for q in batoid.rSplit(f, vec(r), m1, m2, coat, coordSys=where)])
    if op == 'surface': return P, lambda r: cols(f.reflect(f.intersect(vec(r), coordSys=where), coordSys=where))
    if op == 'screen':
        scr = any_surface(s, rng, 'zern')
        return P, lambda r: cols(batoid.trace.refractScreen(f, vec(r), scr, coordSys=where))
    if op == 'obscure':
        o = any_obsc(s, rng)
        return P, lambda r: cols(batoid.obscure(o, vec(r)))
    t, x = float(rng.normal() * 3), rng.normal(size=3)
    if op == 'frame': return P, lambda r: cols(vec(r).toCoordSys(where))
    if op == 'propagate':
        def prop(r):
            v = vec(r); v.propagate(t); return cols(v)
        return P, prop
    if op == 'position': return P, lambda r: vec(r).positionAtTime(t)
    if op == 'phase': return P, lambda r: vec(r).phase(x, t).reshape(-1, 1)
    if op == 'amplitude': return P, lambda r: np.column_stack([(a := vec(r).amplitude(x, t)).real, a.imag])
    if op == 'view':
        def view(r):
            v = vec(r)
            return np.column_stack([v.k, v.omega, v.r, v.v, v.kx, v.ky, v.kz])
        return P, view
    def total(r):
        v = vec(r)
        z = v.sumAmplitude(x, t, ignoreVignetted=s['ignore']) if not s['ignore'] or s['kind'] % 2 else v.sumAmplitude(x, t)
        return np.array([[z.real, z.imag]])
    total.amp = lambda r: np.column_stack([(a := vec(r).amplitude(x, t)).real, a.imag])
    return P, total


def layout(s, n):
    """The ways of handing the rows over: name, parts (sequences of row numbers), whether it is a partition."""
    rng = np.random.default_rng([SEED, 1801, s['perm']])
    allr, p = list(range(n)), [int(j) for j in rng.permutation(n)]
    parts, k = [], 0
    while p[k:]:
        c = s['cuts'][len(parts) % len(s['cuts'])]
        parts.append(p[k:k + c]); k += c
    big = [int(j) for j in rng.integers(0, n, s['big'])]
    return [('whole', [allr], True), ('reversed', [allr[::-1]], True), ('parts', parts, True), ('many', [big], False), ('again', [allr], True)]


def worker(scen, path, t):
    out = {}
    for s in scenarios(scen):
        r = out[s['id']] = {'exc': '', 'v': {}}
        try:
            P, call = make(s)
            r['P'] = P
            if t in ('', '2'): r['v']['alone'] = [np.asarray(call(P[j:j + 1])) for j in range(len(P))]
            for name, parts, _ in layout(s, len(P)):
                r['v'][name] = [np.asarray(call(P[q])) for q in parts]
            if s['op'] == 'sum' and t == '': r['amp'] = call.amp(P)
        except Exception as e:
            r['exc'] = exc_text(e); r['trace'] = traceback.format_exc()[-800:]
    pickle.dump(out, open(path, 'wb'))


def main():
    scen, log, argv = args()
    if argv: return worker(scen, log.path + '.pkl', argv[0] if argv[0] != 'default' else '')
    procs = []
    for t in THREADS:
        e = dict(os.environ); e.pop('OMP_NUM_THREADS', None); e['OMP_WAIT_POLICY'] = 'passive'; e['OMP_DYNAMIC'] = 'false'
        if t: e['OMP_NUM_THREADS'] = t
        w = log.path + '.t' + t
        procs.append((t, w, subprocess.Popen([sys.executable, '-X', 'faulthandler', '-m', 'drivers.par', scen, w, t or 'default'], env=e, stderr=open(w + '.err', 'w'))))
    res = {}
    for t, w, p in procs:
        rc = p.wait()
        res[t] = pickle.load(open(w + '.pkl', 'rb')) if rc == 0 else 'the process with OMP_NUM_THREADS=%s ended with %d: %s' % (t, rc, open(w + '.err').read()[-300:].replace('"', "'").replace('\\', '/').replace('\n', ' '))
    for s in scenarios(scen):
        log.current(s)
        rec = {'id': s['id'], 'op': s['op'], 'kind': s['kind'], 'exc': '', 'tag': '', 'ignore': s['ignore']}
        for t in THREADS:
            if isinstance(res[t], str): rec['exc'] = res[t]
            elif res[t][s['id']]['exc']: rec['exc'] = res[t][s['id']]['exc']; rec['trace'] = res[t][s['id']]['trace']
        if not rec['exc']:
            P = res[''][s['id']]['P']
            n = rec['n'] = len(P)
            lay = [('alone', [[j] for j in range(n)], True)] + layout(s, n)
            names = {'': 'default threads', **{t: t + ' threads' for t in THREADS if t}}
            ids, known = {}, []
            slack = 0 if s['op'] in EXACT else 1e-6 if s['op'] in ('phase', 'amplitude') else 1e-12
            def row(a):
                """Equal numbers for equal rows; where numpy works on whole arrays, equal to rounding."""
                k = np.where(a != a, np.nan, a + 0.0).tobytes()
                if k not in ids:
                    near = [i for i, q in known if np.allclose(a, q, rtol=slack, atol=slack, equal_nan=True)] if slack else []
                    ids[k] = near[0] if near else len(ids) + 1
                    if not near: known.append((ids[k], a))
                return ids[k]
            solo = [a for a in res[''][s['id']]['v']['alone']]
            rec['variants'] = []
            if s['op'] == 'sum':
                rec.update(amp=mat(res[''][s['id']]['amp']), flux=nums(P[:, 8]), vig=[bool(b) for b in P[:, 9]], fail=[bool(b) for b in P[:, 10]])
            else: rec['solo'] = [row(a[0]) for a in solo]
            for t in THREADS:
                v = res[t][s['id']]['v']
                for name, parts, whole in lay:
                    if name not in v: continue
                    q = {'what': name + ', ' + names[t], 'whole': whole, 'parts': [[j + 1 for j in p] for p in parts]}
                    if s['op'] == 'sum': q['sum'] = [nums(a[0]) for a in v[name]]
                    else: q['out'] = [[row(r) for r in a] for a in v[name]]
                    rec['variants'].append(q)
        log.put(rec)
    log.close()


main()
