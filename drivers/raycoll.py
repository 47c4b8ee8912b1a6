"""Runs programs of RayCollGen on real ray vectors; rows and frames are interned."""
import copy, pickle
from vlib.tree import *
scen, log, argv = args()
F = ['x', 'y', 'z', 'vx', 'vy', 'vz', 't', 'wavelength', 'flux', 'vignetted', 'failed']
DEFAULT = {'t': 0.0, 'wavelength': 0.0, 'flux': 1.0, 'vignetted': False, 'failed': False}


class Intern:
    def __init__(self): self.ids, self.rows = {}, []
    def __call__(self, key, row):
        if key not in self.ids:
            self.ids[key] = len(self.ids) + 1
            self.rows.append(row)
        return self.ids[key]


def key(v): return 'nan' if v != v else float(v)


def view(rv, T, FR):
    a = [np.asarray(getattr(rv, f)) for f in F]
    n = len(rv)
    if any(c.shape != (n,) for c in a): raise AssertionError('columns of different lengths')
    rows = []
    for j in range(n):
        k = tuple(key(float(c[j])) for c in a)
        rows.append(T(k, {'v': [num(float(c[j])) for c in a], 'nan': 'nan' in k}))
    return {'rays': rows, 'frame': FR(repr(frame(rv.coordSys)), 0)}


def index(i, n):
    if i['t'] == 'int': return np.int64(i['j']) if i.get('np') else i['j']
    if i['t'] == 'mask': return list(i['m']) if i['list'] else np.array(i['m'], dtype=bool)
    if i['t'] == 'list': return list(i['l']) if i['list'] else np.array(i['l'])
    b = lambda q: None if q == [] else q[0]
    return slice(b(i['a']), b(i['b']), i['c'] if i['c'] != 1 or n % 2 else None)


def new(q, rng):
    n = q['n']
    cols, kw, src, form = {}, {}, [], q['form']
    for f in F:
        how = q['scal'].get(f, 'array')
        m = n if how == 'array' else 1
        if f in ('vignetted', 'failed'): v = rng.integers(0, 3, m) == 0 if q['flags'] == 'some' else np.zeros(m, bool)
        elif f == 'wavelength': v = rng.uniform(4e-7, 9e-7, m)
        else: v = rng.normal(size=m)
        if form == 'int' and f not in ('wavelength', 'vignetted', 'failed'): v = rng.integers(-3, 4, m)
        if f == 'vz' and np.any(v == 0): v = v + 1
        if how == 'omit':
            cols[f] = [DEFAULT[f]]
            continue
        if how == 'scalar':
            kw[f] = v[0].item() if rng.integers(2) else v[0]; cols[f] = [kw[f]]
            continue
        if form == 'float32' and f not in ('vignetted', 'failed', 'wavelength'): v = v.astype(np.float32)
        if form == 'strided' or (form == 'mixed' and rng.integers(2)):
            w = np.empty((m, 2), v.dtype); w[:, 0] = v; v = w[:, 0]
        elif form == 'list': v = v.tolist()
        cols[f] = [x for x in v]
        kw[f] = v
        src.append(v)
    if q['frame'] == 'any': kw['coordSys'] = batoid.CoordSys(rng.normal(size=3), rot_random(rng))
    pos = [kw.pop(f) for f in F[:6]] if rng.integers(2) else []
    rv = batoid.RayVector(*pos, **kw)
    return rv, cols, src


def scribble(src):
    for v in src:
        if isinstance(v, list):
            for j in range(len(v)): v[j] = 7
        else: v[...] = 1


def change(o, rv, src, rng, rec):
    op = o['op']
    if op == 'args': scribble(src)
    elif op == 'read':
        with np.errstate(all='ignore'):
            rv.r; rv.v; rv.k; rv.omega; repr(rv); len(rv); rv == rv; rv != rv; hash(rv) if False else rv._hash(); rv.positionAtTime(1.0); rv.phase([0, 0, 1], 2.0)
            rv.sumAmplitude([0, 0, 0], 1.0); rv.amplitude([0, 0, 0], 1.0); pickle.dumps(rv); copy.deepcopy(rv)
        for a in (rv.r, rv.v, rv.k): a[...] = 5       # these are results, not views
    elif op == 'write':
        f = o['field']
        v = bool(rng.integers(2)) if f in ('vignetted', 'failed') else float(rng.normal())
        rec.update(f=F.index(f) + 1, val=num(float(v)), j=o['at'] % len(rv) if len(rv) else -1)
        if len(rv): getattr(rv, f)[rec['j']] = v
    elif op == 'frame': rv.toCoordSys(batoid.CoordSys(rng.normal(size=3), rot_random(rng)))
    elif op == 'prop': rv.propagate(float(rng.normal()))
    elif op == 'obsc': batoid.obscure(batoid.ObscNegation(batoid.ObscCircle(.8)), rv)
    elif op == 'int': batoid.intersect(batoid.Paraboloid(5.0), rv, coordSys=batoid.CoordSys(rng.normal(size=3)))
    elif op == 'refl': batoid.reflect(batoid.Plane(), rv, coordSys=batoid.CoordSys(rng.normal(size=3)))
    elif op == 'trace': batoid.CompoundOptic([batoid.Mirror(batoid.Plane(), name='a'), batoid.Baffle(batoid.Plane(), name='b', obscuration=batoid.ObscCircle(.5), coordSys=batoid.CoordSys([0, 0, 1]))], name='S').trace(rv)


for q in scenarios(scen):
    rng = np.random.default_rng([SEED, q['id'], 15])
    log.current(q)
    T, FR = Intern(), Intern()
    e = {'id': q['id'], 'tag': '', 'ev': [], 'exc': ''}
    try:
        rv, cols, src = new(q['new'], rng)
        st = [rv]
        e['cols'] = [nums(cols[f]) for f in F]
        e['n'] = q['new']['n']
        e['start'] = [view(r, T, FR) for r in st]
        for o in q['ops']:
            rec = dict(o)
            op = o['op']
            if op == 'copy': st.append(st[o['src'] - 1].copy())
            elif op == 'pickle': st.append(pickle.loads(pickle.dumps(st[o['src'] - 1])))
            elif op == 'deepcopy': st.append(copy.deepcopy(st[o['src'] - 1]))
            elif op == 'index': st.append(st[o['src'] - 1][index(o['i'], len(st[o['src'] - 1]))])
            elif op == 'concat':
                l = [st[s - 1] for s in o['srcs']]
                st.append(batoid.concatenateRayVectors(l if o['gen'] == 'list' else tuple(l)))
            elif op == 'iter': st.append(batoid.concatenateRayVectors([r for r in st[o['src'] - 1]]))
            elif op == 'badindex':
                try:
                    st[o['src'] - 1][index(o['i'], 0)]
                    rec['raised'] = 'nothing'
                except IndexError: rec['raised'] = 'IndexError'
            else: change(o, st[o['src'] - 1], src, rng, rec)
            rec['store'] = [view(r, T, FR) for r in st]
            e['ev'].append(rec)
        e['eq'] = [[(bool(a == b), bool(a != b)) for b in st] for a in st]
        e['len'] = [len(a) for a in st]
        e['rows'] = T.rows
    except Exception as ex: e['exc'] = exc_text(ex)
    log.put(e)
log.close()
