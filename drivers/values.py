"""Builds pairs of objects from descriptions; logs what ==, hash, pickle, copy and repr say."""
import copy, pickle, warnings
from vlib.tree import *
warnings.simplefilter('ignore')
scen, log, argv = args()
np.seterr(all='ignore')
NS = {k: getattr(np, k) for k in ('array', 'float64', 'float32', 'int64', 'int32', 'nan', 'inf')}
NS.update(np=np, **{k: getattr(batoid, k) for k in dir(batoid) if k[0].isupper()})
NS['Interface'] = batoid.optic.Interface
SIB = [{'Sphere', 'Paraboloid', 'Const'}, {'Quadric', 'Tilted', 'Coating'}, {'Sellmeier', 'Sumita'}, {'Table', 'Polygon'}, {'Air', 'Circle'},
       {'Annulus', 'Ray'}, {'or', 'and'}, {'Baffle', 'Mirror', 'Refractive', 'Detector', 'Interface'}, {'Compound', 'Lens'}]
FAM = {'Const': 'm', 'Coating': 'c', 'Table': 'm', 'Polygon': 'o', 'Air': 'm', 'Circle': 'o'}
LEAVES = {'Baffle': batoid.Baffle, 'Mirror': batoid.Mirror, 'Refractive': batoid.RefractiveInterface, 'Detector': batoid.Detector, 'Interface': batoid.optic.Interface}
RADIUS = {('Sphere', 0, 0), ('Paraboloid', 0, 0), ('Quadric', 0, 0), ('Asphere', 0, 0)}


def fill(d, rng, vals):
    """Numbers for a skeleton."""
    k = d['k']
    if k == 'Lattice': d = dict(d, n=[len(d['shape']), int(np.prod(d['shape'])), len(d['shape']) ** 2])
    def v(n):
        if vals == 'nice': return [float(x) for x in rng.integers(-8, 9, n) / rng.choice([1, 1, 2, 4])]
        if vals == 'special': return [float(rng.choice([0.0, -0.0, 1e-12, 1e6, 1 / 3, .1, 1.0, -1.0, 123456.789, 1e-300])) for _ in range(n)]
        return [float(x) for x in rng.normal(size=n) * 10 ** rng.uniform(-3, 2)]
    u = lambda lo, hi: float(rng.integers(int(lo * 4), int(hi * 4) + 1)) / 4 if vals == 'nice' else float(rng.uniform(lo, hi))
    n = [v(m) for m in d['n']]
    if k in ('Paraboloid', 'Sphere', 'Quadric', 'Asphere'): n[0][0] = u(3, 30) * float(rng.choice([-1, 1]))
    if k in ('Quadric', 'Asphere'): n[0][1] = u(-2, .5)
    if k == 'Asphere':
        n[1] = [x * 1e-4 for x in n[1]] if vals == 'random' else n[1]
        n[2] = [float(d['n'][2])]
    if k == 'Zernike': n[1] = [u(1, 4), u(0, 1) * .9, u(-1, 1) if rng.integers(2) else 0.0, u(-1, 1) if rng.integers(2) else 0.0]
    if k == 'Bicubic':
        for j in (0, 1):
            a, h = u(-2, -1), u(1, 3)
            n[j] = [float(x) for x in a + h * np.arange(len(n[j]))]
    if k == 'Const': n[0] = [u(1, 2)]
    if k == 'Table': n[0] = [float(x) for x in np.sort(rng.uniform(3, 11, len(n[0]))) * 1e-7]; n[1] = [u(1, 2) for _ in n[1]]
    if k == 'Sellmeier': n[0] = [u(.2, 1.1), u(.1, 1), u(.5, 1), 6e-15, 2e-14, 1.03560653e-10]
    if k == 'Sumita': n[0] = [u(2, 3), -.01, .015, 1e-4, u(0, 1) * 1e-5, 1e-6]
    if k == 'Air': n[0] = [u(50, 100), u(250, 300), u(0, 2)]
    if k in ('Circle', 'Annulus', 'Rectangle', 'Ray'):
        n[0][0] = u(.25, 1)
        if k in ('Annulus', 'Rectangle'): n[0][1] = u(1, 2)
        if rng.integers(2):
            n[0][2 if k != 'Circle' else 1] = 0.0
            if rng.integers(2): n[0][3 if k != 'Circle' else 2] = 0.0
    if k == 'CoordSys':
        M = cube_rots()[int(rng.integers(24))] if vals == 'nice' else rot_random(rng)
        n[1] = [float(x) for x in M.ravel()]
    if k == 'Lattice': n[0] = [float(x) for x in d['shape']]
    subs = [fill(s, rng, vals) for s in d['subs']]
    return tidy({'k': k, 'nums': n, 'strs': list(d['strs']), 'subs': subs})


def tidy(d):
    for s in d['subs']: tidy(s)
    if d['k'] == 'Lens' and len(d['subs']) == 5:
        m = d['subs'][3]['subs'][4]
        d['subs'][4]['subs'][3] = copy.deepcopy(m)
        tidy(d['subs'][4])
    if d['k'] == 'Screen': d['subs'][4] = copy.deepcopy(d['subs'][3])
    return d


def public(d):
    return {'k': d['k'], 'nums': [nums(x) for x in d['nums']], 'strs': d['strs'], 'subs': [public(s) for s in d['subs']]}


class Maker:
    """Builds objects; keeps the mutable arguments it handed over."""
    def __init__(self, style, rng, given=None):
        self.style, self.rng, self.handed = style, rng, []

    def s(self, x):
        st = self.style
        if st == 'int' and x == int(x): return int(x)
        if st == 'np64': return np.float64(x)
        return x

    def a(self, xs, shape=None):
        st = self.style
        if shape is not None or st in ('array', 'np64'):
            r = np.array(xs, dtype=float)
            if st == 'int' and all(x == int(x) for x in xs): r = r.astype(int)
            if shape is not None:
                r = r.reshape(shape)
                if st == 'list': r = np.asfortranarray(r)
        elif st == 'tuple': return tuple(xs)
        elif st == 'int' and all(x == int(x) for x in xs): r = [int(x) for x in xs]
        else: r = list(xs)
        self.handed.append(r)
        return r

    def items(self, subs):
        o = [self.make(s) for s in subs]
        self.handed.append(o)
        return o

    def make(self, d):
        k, n, su, rng = d['k'], d['nums'], d['subs'], self.rng
        S, A = self.s, self.a
        if k == 'none': return None
        if k == 'Plane': return batoid.Plane()
        if k in ('Tilted', 'Paraboloid', 'Sphere', 'Quadric'): return getattr(batoid, k)(*[S(x) for x in n[0]])
        if k == 'Asphere':
            im = int(n[2][0])
            if im == 2 and rng.integers(2): return batoid.Asphere(*[S(x) for x in n[0]], A(n[1]))
            return batoid.Asphere(*[S(x) for x in n[0]], A(n[1]), imin=im)
        if k == 'Zernike':
            c = A(n[0])
            return batoid.Zernike(c, *[S(x) for x in n[1]])
        if k == 'Bicubic':
            shp = (len(n[1]), len(n[0]))
            extra = [A(x, shp) for x in n[3:]]
            pol = d['strs'][0]
            if rng.integers(2): pol = pol.upper()
            if pol == 'nan' and rng.integers(2): return batoid.Bicubic(A(n[0]), A(n[1]), A(n[2], shp), *extra)
            return batoid.Bicubic(A(n[0]), A(n[1]), A(n[2], shp), *extra, nanpolicy=pol)
        if k == 'Sum':
            it = self.items(su)
            return batoid.Sum(*it) if rng.integers(2) else batoid.Sum(it)
        if k == 'Const': return batoid.ConstMedium(S(n[0][0]))
        if k == 'Table': return batoid.TableMedium(A(n[0]), A(n[1]))
        if k in ('Sellmeier', 'Sumita'):
            cls = batoid.SellmeierMedium if k == 'Sellmeier' else batoid.SumitaMedium
            j = int(rng.integers(3))
            if j == 0: return cls(A(n[0]))
            if j == 1: return cls(*[S(x) for x in n[0]])
            return cls(**dict(zip(['B1', 'B2', 'B3', 'C1', 'C2', 'C3'] if k == 'Sellmeier' else ['A0', 'A1', 'A2', 'A3', 'A4', 'A5'], [S(x) for x in n[0]])))
        if k == 'Air': return batoid.Air(*[S(x) for x in n[0]])
        if k == 'Coating': return batoid.SimpleCoating(*[S(x) for x in n[0]])
        if k in ('Circle', 'Annulus', 'Rectangle', 'Ray'):
            v = [S(x) for x in n[0]]
            lead = {'Circle': 1, 'Annulus': 2, 'Rectangle': 2, 'Ray': 2}[k]
            while len(v) > lead and repr(float(v[-1])) == '0.0' and rng.integers(2): v.pop()
            return getattr(batoid, 'Obsc' + k)(*v)
        if k == 'Polygon': return batoid.ObscPolygon(A(n[0]), A(n[1]))
        if k == 'not': return batoid.ObscNegation(self.make(su[0]))
        if k in ('or', 'and'):
            cls = batoid.ObscUnion if k == 'or' else batoid.ObscIntersection
            it = self.items(su)
            j = int(rng.integers(3))
            return cls(*it) if j == 0 else cls(it) if j == 1 else cls(tuple(it))
        if k == 'CoordSys': return batoid.CoordSys(A(n[0]), A(n[1], (3, 3)))
        if k == 'Transform': return batoid.CoordTransform(self.make(su[0]), self.make(su[1]))
        if k == 'Lattice':
            shp = tuple(int(x) for x in n[0])
            return batoid.Lattice(self.a(n[1], shp), self.a(n[2], (len(shp),) * 2))
        if k in LEAVES or k == 'Screen':
            kw = dict(name=d['strs'][0], coordSys=self.make(su[2]), inMedium=self.make(su[3]), outMedium=self.make(su[4]))
            if su[1]['k'] != 'none' or rng.integers(2): kw['obscuration'] = self.make(su[1])
            if k == 'Screen': return batoid.OPDScreen(self.make(su[0]), self.make(su[5]), **kw)
            return LEAVES[k](self.make(su[0]), **kw)
        if k in ('Compound', 'Lens'):
            it = self.items(su[3:])
            return (batoid.CompoundOptic if k == 'Compound' else batoid.Lens)(it, name=d['strs'][0], coordSys=self.make(su[0]), inMedium=self.make(su[1]), outMedium=self.make(su[2]))
        raise KeyError(k)


PX, PY = np.array([0.0, .3, -.7, 1.1, .25]), np.array([0.0, -.2, .6, .9, -1.3])


def probe(o):
    out = []
    def w(x): out.extend(nums(x))
    if isinstance(o, batoid.Surface):
        w(o.sag(PX, PY)); w(o.normal(PX, PY))
    elif isinstance(o, batoid.Medium): w(o.getN(np.array([4e-7, 5.5e-7, 8e-7])))
    elif isinstance(o, batoid.Coating):
        r = o.getCoefs(5e-7, .5); w(r); w([o.getReflect(5e-7, .5), o.getTransmit(5e-7, .5)])
    elif isinstance(o, batoid.Obscuration): w([o.contains(float(x), float(y)) for x, y in zip(PX, PY)])
    elif isinstance(o, batoid.CoordSys): w(o.origin); w(o.rot); w(o.toGlobal(np.array([1., 2., 3.]))); w(o.xhat); w(o.zhat)
    elif isinstance(o, batoid.CoordTransform): w(np.array(o.applyForwardArray(PX, PY, PX))); w(np.array(o.applyReverseArray(PX, PY, PX)))
    elif isinstance(o, batoid.Lattice): w(o.coords); w(o.array)
    else:
        rv = batoid.RayVector(PX * .3, PY * .3, 0 * PX - 1., 0 * PX, 0 * PX + .1, 0 * PX + 1., 0., 5e-7)
        w([len(o.path)])
        if all(type(i) is not batoid.optic.Interface for i in leaves(o)):
            o.trace(rv)
            for a in (rv.r, rv.v, rv.t, rv.vignetted, rv.failed): w(a)
    return out


def alike(p, q):
    return len(p) == len(q) and np.allclose(np.array(p, float), np.array(q, float), rtol=1e-9, atol=1e-9, equal_nan=True)


def leaves(o):
    return sum([leaves(i) for i in o.items], []) if hasattr(o, 'items') else [o]


def nodes(d, path=()):
    yield path, d
    for j, s in enumerate(d['subs']): yield from nodes(s, path + (j,))


def at(d, path):
    for j in path: d = d['subs'][j]
    return d


VARN = {'Asphere': [[1]], 'Zernike': [[0]], 'Table': [[0, 1]], 'Polygon': [[0, 1]], 'Lattice': []}


def edit(d, e, rng):
    """One edit of a copy of d; returns (new, what was done)."""
    d = copy.deepcopy(d)
    op = e['op']
    ns = [(p, x) for p, x in nodes(d) if x['k'] != 'none']
    if e['deep'] and len(ns) > 1: ns = ns[1:]
    order = [ns[int(j)] for j in rng.permutation(len(ns))]
    for p, x in order:
        k = x['k']
        if op == 'bump' and any(x['nums']):
            i = int(rng.choice([j for j, l in enumerate(x['nums']) if l]))
            if k == 'Lattice': i = int(rng.integers(1, 3))
            j = int(rng.integers(len(x['nums'][i])))
            v = x['nums'][i][j]
            if k == 'Asphere' and i == 2: n = v + 1
            else:
                n = {'half': v + .5, 'tiny': v * (1 + 1e-12) if v else 1e-13, 'neg': -v if v else 1.0, 'zero': 0.0 if v else .25,
                     'clash': v * 2.0 ** 61 if v else 2.0 ** 61 - 1}[e['delta']]        # another number with the same hash
                if v == -1.0 and e['delta'] == 'clash': n = -2.0
                if rng.integers(3) == 0 and e['delta'] == 'tiny': n = float(np.nextafter(v, np.inf))
            x['nums'][i][j] = n
            return tidy(d), 'bump'
        if op == 'string' and x['strs']:
            x['strs'][0] = {'nan': 'zero', 'zero': 'nan'}.get(x['strs'][0], x['strs'][0] + 'x' if rng.integers(2) else x['strs'][0].lower() + ' ')
            return tidy(d), op
        if op == 'kind':
            c = [s for s in SIB if k in s]
            if c:
                c = [s for s in sorted(c[0] - {k}) if not p or FAM.get(s, 's') == FAM.get(k, 's')]
                if k == 'Lens': c = ['Compound']
                if k == 'Compound' and (len(x['subs']) != 5 or any(q['k'] in ('Compound', 'Lens') for q in x['subs'][3:])): c = []
                if p and k == 'Tilted' or p and k == 'Quadric': c = [s for s in c if s != 'Coating']
                if c:
                    x['k'] = c[int(rng.integers(len(c)))]
                    return tidy(d), op
        if op in ('drop', 'append'):
            if k in ('Sum', 'or', 'and', 'Compound') and rng.integers(3):
                off = 3 if k == 'Compound' else 0
                if op == 'append': x['subs'].insert(int(rng.integers(off, len(x['subs']) + 1)), copy.deepcopy(x['subs'][-1]))
                elif len(x['subs']) > off + 1: del x['subs'][int(rng.integers(off, len(x['subs'])))]
                else: continue
                return tidy(d), op
            if k in LEAVES or k == 'Screen':
                if op == 'drop' and x['subs'][1]['k'] != 'none': x['subs'][1] = {'k': 'none', 'nums': [], 'strs': [], 'subs': []}
                elif op == 'append' and x['subs'][1]['k'] == 'none': x['subs'][1] = {'k': 'Circle', 'nums': [[1.0, 0.0, 0.0]], 'strs': [], 'subs': []}
                else: continue
                return tidy(d), op
            if VARN.get(k):
                ls = VARN[k][0]
                if op == 'append':
                    for i in ls: x['nums'][i].append(0.0 if rng.integers(2) and k in ('Asphere', 'Zernike') else (x['nums'][i][-1] * 1.1 if rng.integers(2) else 0.5))
                elif len(x['nums'][ls[0]]) > (3 if k == 'Polygon' else 2 if k in ('Table', 'Zernike') else 1):
                    for i in ls: x['nums'][i].pop()
                else: continue
                return tidy(d), op
        if op == 'swapnum':
            c = [i for i, l in enumerate(x['nums']) if len(l) > 1 and not (k == 'Lattice' and i == 0)]
            if c:
                l = x['nums'][int(rng.choice(c))]
                j = int(rng.integers(len(l) - 1))
                l[j], l[j + 1] = l[j + 1], l[j]
                if k in ('Sphere', 'Quadric', 'Asphere') and l is x['nums'][0] and l[0] == 0: l[0] = 1.0
                return tidy(d), op
            if k in ('Table', 'Polygon') or (k == 'Bicubic' and len(x['nums']) == 6):
                i = -2 if k != 'Bicubic' else int(rng.integers(2, 5))
                x['nums'][i], x['nums'][i + 1] = x['nums'][i + 1], x['nums'][i]
                return tidy(d), op
        if op == 'swapsub':
            if k in ('Sum', 'or', 'and') and len(x['subs']) > 1: i = int(rng.integers(len(x['subs']) - 1))
            elif k == 'Transform': i = 0
            elif k in LEAVES: i = 3
            elif k == 'Compound' and len(x['subs']) > 4: i = int(rng.integers(3, len(x['subs']) - 1))
            elif k == 'Lens': i = int(rng.choice([1, 3]))
            else: continue
            x['subs'][i], x['subs'][i + 1] = x['subs'][i + 1], x['subs'][i]
            return tidy(d), op
    return d, 'same'


def fixscale(d):                       # zero radii are not surfaces
    for p, x in nodes(d):
        if x['k'] in ('Sphere', 'Paraboloid', 'Quadric', 'Asphere') and x['nums'][0][0] == 0: x['nums'][0][0] = 1.5
        if x['k'] == 'Zernike' and not (x['nums'][1][0] > abs(x['nums'][1][1]) and x['nums'][1][1] >= 0): x['nums'][1][0], x['nums'][1][1] = abs(x['nums'][1][0]) + abs(x['nums'][1][1]) + 1, abs(x['nums'][1][1])
    return d


def tied(d):
    """Some union or intersection has members that print alike but differ, or numbers of mixed types."""
    for p, x in nodes(d):
        if x['k'] in ('or', 'and') and len(x['subs']) > 1: return True
    return False


class PrintsAlike:
    """Do the members of some union print alike without being equal?"""
    def __call__(self, o):
        if isinstance(o, (batoid.ObscUnion, batoid.ObscIntersection)):
            it = o.items
            if any(self(i) for i in it): return True
            return any(repr(a) == repr(b) and not a == b for j, a in enumerate(it) for b in it[j + 1:])
        if isinstance(o, batoid.ObscNegation): return self(o.original)
        if isinstance(o, batoid.optic.Interface): return o.obscuration is not None and self(o.obscuration)
        if hasattr(o, 'items') and not callable(o.items): return any(self(i) for i in o.items)
        return False


def pair(x, y):
    return [bool(x == y), bool(y == x)], [bool(x != y), bool(y != x)]


def safe_pair(x, y):
    out = []
    for f in (lambda: x == y, lambda: y == x, lambda: x != y, lambda: y != x):
        r = f()
        if not isinstance(r, (bool, np.bool_)): raise TypeError('comparison gives ' + type(r).__name__)
        out.append(bool(r))
    return out[:2], out[2:]


def sweep(a, A, style, rng, most):
    """Every number of the description changed alone: what == says of the two objects."""
    slots = [(list(p), i, j) for p, x in nodes(a) for i, l in enumerate(x['nums']) for j in range(len(l))
             if not (x['k'] in ('Asphere', 'Lattice') and i == (2 if x['k'] == 'Asphere' else 0))]
    todo = [(s, c) for s in slots for c in ('clash', str(rng.choice(['half', 'ulp', 'neg', 'zero', 'tiny'])))]
    if len(todo) > most: todo = [todo[int(k)] for k in rng.choice(len(todo), most, replace=False)]
    out = []
    for (p, i, j), c in todo:
        v = at(a, p)['nums'][i][j]
        n = {'half': v + .5, 'ulp': float(np.nextafter(v, np.inf)), 'neg': -v, 'zero': 0.0, 'tiny': v * (1 + 1e-12),
             'clash': -2.0 if v == -1 else -1.0 if v == -2 else v * 2.0 ** 61 if v else 2.0 ** 61 - 1}[c]
        b = copy.deepcopy(a)
        at(b, p)['nums'][i][j] = n
        want = copy.deepcopy(b)
        if fixscale(tidy(b)) != want: continue                # numbers that go together
        r = {'p': [k + 1 for k in p], 'i': i + 1, 'j': j + 1, 'v': nums([n])[0], 'err': ''}
        try:
            B = Maker(style, rng).make(b)
            (r['eq'], r['qe']), _ = safe_pair(A, B)
            r['hash'] = hash(A) == hash(B)
        except Exception as ex: r['err'] = exc_text(ex)
        out.append(r)
    return out


FOREIGN = [None, 0, 1.5, 'Plane()', (), [], {}, object(), type]
for e in scenarios(scen):
    rng = np.random.default_rng([SEED, 1400, e['id']])
    a = fixscale(fill(e['d'], rng, e['vals']))
    if e['op'] == 'other': b, done = fixscale(fill(e['other'], rng, e['vals'])), 'other'
    elif e['op'] == 'same': b, done = copy.deepcopy(a), 'same'
    else:
        b, done = edit(a, e, rng)
        fixscale(b)
    rec = {'id': e['id'], 'a': public(a), 'b': public(b), 'op': done, 'exc': '', 'tag': ''}
    log.current(rec)
    try:
        ma = Maker(e['style'], rng)
        A = ma.make(a)
        sb = e['style'] if any(x['k'] in ('or', 'and') for _, x in nodes(a)) else str(rng.choice(['float', 'int', 'np64', 'array', 'list', 'tuple']))
        B = Maker(sb, rng).make(b)
        h0 = hash(A)
        same = done == 'same'
        if e['used']: probe(A)
        rec['eq'], rec['ne'] = safe_pair(A, B)
        rec['hash'] = hash(A) == hash(B)
        rec['self'] = bool(A == A) and not (A != A)
        rec['tie'] = PrintsAlike()(A) or PrintsAlike()(B)
        rec['foreign'] = [bool(A == f) or bool(f == A) or not (A != f) for f in FOREIGN]
        rec['pa'] = probe(A)
        rec['pb'] = probe(B) if all(rec['eq']) else []
        rec['rt'] = []
        for how, f in (('pickle', lambda: pickle.loads(pickle.dumps(A, -1))), ('pickle protocol 2', lambda: pickle.loads(pickle.dumps(A, 2))),
                       ('copy', lambda: copy.copy(A)), ('deep copy', lambda: copy.deepcopy(A)), ('pickle in a list', lambda: pickle.loads(pickle.dumps([A, A]))[1])):
            try:
                C = f()
                q, n = safe_pair(A, C)
                rec['rt'].append({'how': how, 'err': '', 'kind': type(C) is type(A), 'eq': q, 'ne': n, 'hash': hash(C) == h0, 'probe': probe(C)})
            except Exception as ex:
                rec['rt'].append({'how': how, 'err': exc_text(ex)})
        try:
            C = eval(repr(A), NS) if '...' not in repr(A) else A      # numpy leaves out the middle of long arrays
            rec['repr'] = {'err': '', 'kind': type(C) is type(A), 'again': repr(C) == repr(A)}
        except Exception as ex: rec['repr'] = {'err': exc_text(ex), 'kind': True, 'again': True}
        try:
            with np.printoptions(precision=17, floatmode='unique', threshold=10**7, suppress=False):
                D = Maker(e['style'], np.random.default_rng(1)).make(a)
                C = eval(repr(D), NS)
                rec['full'] = {'err': '', 'eq': [bool(C == D), bool(D == C), hash(C) == hash(D), alike(probe(C), probe(D))]}
        except Exception as ex: rec['full'] = {'err': exc_text(ex), 'eq': []}
        rec['sweep'] = sweep(a, A, sb, rng, 24) if e['sweep'] else []
        rec['hashagain'] = hash(A) == h0
        rec['mut'] = []
        if not any(x['k'] == 'Lattice' for _, x in nodes(a)):
            p0, r0 = rec['pa'], repr(A)
            for h in ma.handed:
                if isinstance(h, np.ndarray): h += 1
                elif h and isinstance(h[0], (int, float)): h[0] += 1; h.append(3.0)
                elif h: h.reverse(); h.append(h[0])
            fresh = Maker(e['style'], rng).make(a)
            rec['mut'] = [bool(A == fresh), bool(fresh == A), hash(A) == h0, alike(probe(A), p0), repr(A) == r0]
    except Exception as ex:
        rec['exc'] = exc_text(ex)
        rec['trace'] = traceback.format_exc()[-800:]
    log.put(rec)
log.close()
