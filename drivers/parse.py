"""Fills in description skeletons, hands them to the real parser and records the optic that comes back."""
import copy, os, tempfile
import yaml
from vlib.drv import *
scen, log, argv = args()
EXTRAS = ['backDist', 'sphereRadius', 'pupilSize', 'pupilObscuration', 'R_outer', 'R_inner']
WAVES = [4e-7, 5.5e-7, 8e-7]


def flat(v):
    return nums(np.ravel(np.asarray(v, dtype=float)))


class Fill:
    """Python descriptions and their records, side by side."""
    def __init__(self, s):
        self.rng = np.random.default_rng([SEED, 1900, s['id']])
        self.kind, self.share = s['nums'], s['share']
        self.cache = {}

    def f(self, lo, hi, ok_int=True):
        x = float(self.rng.uniform(lo, hi))
        if ok_int and (self.kind == 'int' or (self.kind == 'mixed' and self.rng.integers(2))):
            r = int(round(x))
            return r if r else 1
        return x

    def shared(self, what, make):
        """The same dict objects again, when sharing."""
        if self.share and what in self.cache and self.rng.integers(3):
            return self.cache[what]
        self.cache[what] = make()
        return self.cache[what]

    def medium(self, k):
        return self.shared('m' + k, lambda: self.medium1(k))

    def medium1(self, k):
        u = self.rng.uniform
        if k in ('number', 'int'):
            n = float(u(1, 2)) if k == 'number' else int(self.rng.integers(1, 4))
            return n, {'k': 'const', 'p': [num(n)]}
        if k == 'const':
            n = self.f(1, 3)
            return {'type': 'ConstMedium', 'n': n}, {'k': 'const', 'p': [num(n)]}
        if k == 'table':
            n = int(self.rng.integers(2, 5))
            w = [3e-7] + sorted(float(x) for x in u(3.2e-7, 9e-7, n - 2)) + [1e-6]
            v = [float(x) for x in u(1, 2, n)]
            return {'type': 'TableMedium', 'wavelengths': w, 'ns': v}, {'k': 'table', 'w': nums(w), 'n': nums(v)}
        if k in ('sellmeier', 'sumita'):
            if k == 'sellmeier': names, p = ['B1', 'B2', 'B3', 'C1', 'C2', 'C3'], [u(.3, 1.2), u(0, .6), u(0, 1), u(0, .02), u(0, .03), u(80, 120)]
            else: names, p = ['A0', 'A1', 'A2', 'A3', 'A4', 'A5'], [u(1.5, 3), u(-.01, .01), u(-.02, .02), u(-1e-3, 1e-3), u(-1e-4, 1e-4), u(-1e-5, 1e-5)]
            p = [float(x) for x in p]
            o = list(zip(names, p)); self.rng.shuffle(o)
            d = {'type': 'SellmeierMedium' if k == 'sellmeier' else 'SumitaMedium'}
            vals = dict(zip(names, p))
            for n, _ in o: d[str(n)] = vals[str(n)]
            return d, {'k': k, 'p': nums(p)}
        v = {'pressure': self.f(50, 102), 'temperature': self.f(260, 300), 'h2o_pressure': self.f(0, 3)}
        dflt = {'pressure': 69.328, 'temperature': 293.15, 'h2o_pressure': 1.067}
        use = [n for n in v if self.rng.integers(2)]
        return dict({'type': 'Air'}, **{n: v[n] for n in use}), {'k': 'air', 'p': nums([v[n] if n in use else dflt[n] for n in v])}

    def part(self, t, pars, items=()):
        d = {'type': t}
        d.update(pars)
        return d, {'t': t, 'p': [{'k': k, 'v': flat(v)} for k, v in pars.items()], 'items': list(items)}

    def surface(self, t):
        return self.shared('s' + t, lambda: self.surface1(t))

    def surface1(self, t, deep=0):
        r, f = self.rng, self.f
        R = f(3, 20) * (1 if r.integers(2) else -1)
        if t == 'Plane': return self.part(t, {})
        if t == 'Tilted': return self.part(t, {'tanx': f(-.5, .5), 'tany': f(-.5, .5)})
        if t in ('Sphere', 'Paraboloid'): return self.part(t, {'R': R})
        if t == 'Quadric':
            p = {'conic': f(-3, 2), 'R': R} if r.integers(2) else {'R': R, 'conic': f(-3, 2)}
            return self.part(t, p)
        if t == 'Asphere':
            p = {'R': R, 'conic': f(-3, 2), 'coefs': [f(-1, 1) for _ in range(r.integers(1, 4))]}
            if r.integers(2): p['imin'] = int(r.integers(2, 5))
            return self.part(t, p)
        if t == 'Zernike':
            p = {'coef': [float(x) for x in r.normal(size=r.integers(2, 12)) * 1e-3]}
            if r.integers(2): p['R_outer'] = f(1, 3)
            if r.integers(2): p['R_inner'] = float(r.uniform(.1, .9)) * p.get('R_outer', 1)
            if r.integers(2): p['x_origin'] = f(-1, 1)
            if r.integers(2): p['y_origin'] = f(-1, 1)
            return self.part(t, p)
        if t == 'Bicubic':
            nx, ny = (int(x) for x in r.integers(2, 5, 2))
            xs = [float(x) for x in np.linspace(-1, 1, nx) * r.uniform(1, 3)]
            ys = [float(x) for x in np.linspace(-1, 1, ny) * r.uniform(1, 3) + .2]
            return self.part(t, {'xs': xs, 'ys': ys, 'zs': (r.normal(size=(ny, nx)) * .1).tolist()})
        sub = [self.surface1(str(r.choice(['Plane', 'Quadric', 'Zernike', 'Paraboloid'] + (['Sum'] if not deep else []))), 1) for _ in range(r.integers(1, 4))]
        if self.share and len(sub) > 1: sub[-1] = sub[0]
        return {'type': 'Sum', 'items': [q[0] for q in sub]}, {'t': 'Sum', 'p': [], 'items': [q[1] for q in sub]}

    def obsc(self, t, deep=0):
        if deep == 0: return self.shared('o' + t, lambda: self.obsc1(t, 0))
        return self.obsc1(t, deep)

    def obsc1(self, t, deep):
        r, f = self.rng, self.f
        c = t.replace('Clear', 'Obsc')
        at = {k: f(-1, 1) for k in 'xy' if r.integers(2)}
        if c == 'ObscCircle': return self.part(t, dict({'radius': f(.5, 3)}, **at))
        if c == 'ObscAnnulus': return self.part(t, dict({'outer': f(2, 4), 'inner': f(.2, 1.4)}, **at))
        if c == 'ObscRectangle': return self.part(t, dict({'width': f(1, 4), 'height': f(1, 4)}, **at, **({'theta': f(-3, 3)} if r.integers(2) else {})))
        if c == 'ObscRay': return self.part(t, dict({'width': f(.1, 2), 'theta': f(-3, 3)}, **at))
        if c == 'ObscPolygon': return self.part(t, {'xs': [0.0, f(1, 2), 0.5], 'ys': [0.0, .25, f(1, 2)]})
        leaves = ['ObscCircle', 'ObscAnnulus', 'ObscRectangle', 'ObscRay', 'ClearCircle', 'ClearAnnulus', 'ObscPolygon']
        pick = lambda: str(r.choice(leaves + (['ObscNegation', 'ObscUnion', 'ObscIntersection'] if deep < 2 else [])))
        if c == 'ObscNegation':
            q = self.obsc(pick(), deep + 1)
            return {'type': t, 'original': q[0]}, {'t': t, 'p': [], 'items': [q[1]]}
        sub = [self.obsc(pick(), deep + 1) for _ in range(r.integers(1, 4))]
        if self.share and len(sub) == 3: sub[2] = sub[0]
        return {'type': t, 'items': [q[0] for q in sub]}, {'t': t, 'p': [], 'items': [q[1] for q in sub]}

    def coordsys(self, n):
        return self.shared('c%d' % n, lambda: self.coordsys1(n))

    def coordsys1(self, n):
        d, rec = {}, []
        for k in self.rng.permutation(['x', 'y', 'z', 'shift', 'rotX', 'rotY', 'rotZ'])[:n]:
            k = str(k)
            v = [self.f(-2, 2) for _ in range(3)] if k == 'shift' else self.f(-3, 3)
            d[k] = v
            rec.append({'k': k, 'v': nums([v]) if k != 'shift' else nums(v)})
        return d, rec

    def node(self, s, root=False, mid=(None, None)):
        t, r = s['t'], self.rng
        rec = {'t': t, 'name': [], 'cs': [], 'inM': [], 'outM': [], 'medium': [], 'surf': [], 'screen': [], 'obsc': [], 'extras': [], 'stop': [], 'items': []}
        put = []
        if s['name']:
            put.append(('name', s['name'])); rec['name'] = [s['name']]
        if s['ncs'] and not s.get('nocs'):
            d, rec['cs'] = self.coordsys(s['ncs']); put.append(('coordSys', d))
        a, b = s['inM'], s['outM']
        if t == 'OPDScreen':
            a = b = 'number' if a == 'none' else a
        if s['role'] == 'first': b = 'none'
        if s['role'] == 'second': a = 'none'
        given = {'inMedium': mid[0], 'outMedium': mid[1]}
        if t == 'OPDScreen':
            d, m = self.medium(a)
            put += [('inMedium', d), ('outMedium', d)]; rec['inM'] = rec['outM'] = [m]
        else:
            for key, fld, k in (('inMedium', 'inM', a), ('outMedium', 'outM', b)):
                if given[key] is not None:
                    d, m = given[key]; put.append((key, d)); rec[fld] = [m]
                elif k != 'none':
                    d, m = self.medium(k); put.append((key, d)); rec[fld] = [m]
        if t == 'Lens':
            d, m = glass = self.medium(s['medium']); put.append(('medium', d)); rec['medium'] = [m]
        if t not in ('Lens', 'CompoundOptic'):
            d, q = self.surface(s['surf']); put.append(('surface', d)); rec['surf'] = [q]
            if t == 'OPDScreen':
                d, q = self.surface(s['screen']); put.append(('screen', d)); rec['screen'] = [q]
            if s['obsc'] != 'none':
                d, q = self.obsc(s['obsc']); put.append(('obscuration', d)); rec['obsc'] = [q]
        for k in r.permutation(EXTRAS)[:s['extras']]:
            v = self.f(.5, 9); put.append((str(k), v)); rec['extras'].append({'k': str(k), 'v': nums([v])})
        if s.get('stop'):
            d, q = self.node(s['stop']); put.append(('stopSurface', d)); rec['stop'] = [q]
        if t in ('Lens', 'CompoundOptic'):
            mids = [(None, None)] * len(s['items'])
            if t == 'Lens':      # what the surfaces themselves state about the space between them
                w = s['between']
                if w == 'other': glass = self.medium(s['gap'])
                mids = [(None, glass if w in ('first', 'both', 'other') else None), (glass if w in ('second', 'both', 'other') else None, None)]
            sub = [self.node(i, mid=q) for i, q in zip(s['items'], mids)]
            put.append(('items', [q[0] for q in sub])); rec['items'] = [q[1] for q in sub]
        if r.integers(2): r.shuffle(put)
        return dict([('type', t)] + [(str(k), v) for k, v in put]), rec


def text(x):
    """A form of the description that shows values and key order."""
    if isinstance(x, dict): return ['dict', [[k, text(v)] for k, v in x.items()]]
    if isinstance(x, (list, tuple)): return [type(x).__name__, [text(v) for v in x]]
    return [type(x).__name__, repr(x)]


SPAR = {'Sphere': ['R'], 'Paraboloid': ['R'], 'Quadric': ['R', 'conic'], 'Asphere': ['R', 'conic', 'coefs', 'imin'],
        'Zernike': ['coef', 'R_outer', 'R_inner', 'x_origin', 'y_origin'], 'Tilted': ['tanx', 'tany'], 'Bicubic': ['xs', 'ys', 'zs'],
        'ObscCircle': ['radius', 'x', 'y'], 'ObscAnnulus': ['inner', 'outer', 'x', 'y'], 'ObscRectangle': ['width', 'height', 'x', 'y', 'theta'],
        'ObscRay': ['width', 'theta', 'x', 'y'], 'ObscPolygon': ['xs', 'ys']}


def part(o):
    if o is None: return []
    t = type(o).__name__
    sub = list(o.surfaces) if t == 'Sum' else [o.original] if t == 'ObscNegation' else list(o.items) if t in ('ObscUnion', 'ObscIntersection') else []
    return [{'t': t, 'p': [{'k': k, 'v': flat(getattr(o, k))} for k in SPAR.get(t, [])], 'items': [part(q)[0] for q in sub]}]


def seen(o):
    index = lambda m: [num(m.getN(w)) for w in WAVES]
    single = not isinstance(o, batoid.CompoundOptic)
    ex = []
    for k in EXTRAS:
        v = getattr(o, k, None) if k in ('R_outer', 'R_inner') and single else vars(o).get(k)
        if k in ('R_outer', 'R_inner') and not single and k not in vars(o): v = None
        if v is not None: ex.append({'k': k, 'v': nums([v])})
    st = vars(o).get('stopSurface')
    return {'t': type(o).__name__, 'name': o.name, 'frame': frame(o.coordSys), 'inM': index(o.inMedium), 'outM': index(o.outMedium),
            'medium': index(o.medium) if type(o).__name__ == 'Lens' else [], 'surf': part(getattr(o, 'surface', None)), 'screen': part(getattr(o, 'screen', None)),
            'obsc': part(getattr(o, 'obscuration', None)), 'extras': ex, 'stop': [] if st is None else [seen(st)],
            'items': [] if single else [seen(i) for i in o.items]}


def written(d):
    """The record of a description somebody else wrote (purely a change of notation)."""
    one = lambda v: [num(v)] if not isinstance(v, (list, tuple)) else flat(v)
    def med(m):
        if not isinstance(m, dict): return {'k': 'const', 'p': [num(m)]}
        g = lambda *ks: [num(m[k]) for k in ks]
        return {'ConstMedium': lambda: {'k': 'const', 'p': g('n')}, 'TableMedium': lambda: {'k': 'table', 'w': nums(m['wavelengths']), 'n': nums(m['ns'])},
                'SellmeierMedium': lambda: {'k': 'sellmeier', 'p': nums(m['coefs']) if 'coefs' in m else g('B1', 'B2', 'B3', 'C1', 'C2', 'C3')},
                'SumitaMedium': lambda: {'k': 'sumita', 'p': nums(m['coefs']) if 'coefs' in m else g('A0', 'A1', 'A2', 'A3', 'A4', 'A5')},
                'Air': lambda: {'k': 'air', 'p': [num(m.get(k, v)) for k, v in (('pressure', 69.328), ('temperature', 293.15), ('h2o_pressure', 1.067))]}}[m['type']]()
    def obj(q):
        sub = q.get('items', [q['original']] if 'original' in q else [])
        return {'t': q['type'], 'p': [{'k': k, 'v': one(v)} for k, v in q.items() if k not in ('type', 'items', 'original')], 'items': [obj(i) for i in sub]}
    opt = lambda k, f: [f(d[k])] if k in d else []
    return {'t': d['type'], 'name': opt('name', str), 'cs': [{'k': k, 'v': one(v)} for k, v in d.get('coordSys', {}).items()],
            'inM': opt('inMedium', med), 'outM': opt('outMedium', med), 'medium': opt('medium', med), 'surf': opt('surface', obj), 'screen': opt('screen', obj),
            'obsc': [] if d['type'] in ('Lens', 'CompoundOptic') else opt('obscuration', obj),
            'extras': [{'k': k, 'v': nums([d[k]])} for k in EXTRAS if k in d], 'stop': opt('stopSurface', written), 'items': [written(i) for i in d.get('items', [])]}


import glob
files = sorted(glob.glob('/repo/batoid/data/*/*.yaml'))
if not THOROUGH:                                      # one of each family, and a few of the others in turn
    first = {}
    for p in files: first.setdefault(os.path.basename(p).split('_')[0], p)
    files = sorted(set(first.values()) | set(files[SEED % 7::7]))
for n, p in enumerate(files):
    log.current(p)
    e = {'id': -n - 1, 'tag': os.path.basename(p), 'exc': '', 'where': [], 'around': [], 'kept': True, 'twice': True, 'o': {}, 'd': written(yaml.safe_load(open(p))['opticalSystem'])}
    try:
        d = yaml.safe_load(open(p))['opticalSystem']
        before = text(d)
        o = batoid.parse.parse_optic(d)
        e['kept'] = text(d) == before
        o2 = batoid.Optic.fromYaml(p if n % 2 else os.path.basename(p))
        e['twice'] = bool(o == o2) and repr(o) == repr(o2) and seen(o) == seen(o2)
        e['o'] = seen(o)
    except Exception as ex:
        e['exc'] = exc_text(ex)
        e['trace'] = traceback.format_exc()[-700:]
    log.put(e)

for s in scenarios(scen):
    log.current(s)
    F = Fill(s)
    sk = s['d']
    if s['stop'] and s['how'] != 'env':
        stop = dict(sk, t='Interface', name='stop' if F.rng.integers(2) else '', role='leaf', items=[], ncs=int(F.rng.integers(0, 4)), extras=0,
                    surf='Plane' if sk['surf'] == 'Sum' else sk['surf'])
        sk = dict(sk, stop=stop)
    else: sk = dict(sk)
    d, rec = F.node(sk, True)
    e = {'id': s['id'], 'tag': '', 'exc': '', 'd': rec, 'where': [], 'around': [], 'kept': True, 'twice': True, 'o': {}}
    kw = {}
    try:
        if s['how'] == 'env':
            cs = batoid.CoordSys()
            for k in ('rotY', 'shift', 'rotX'):
                if k == 'shift':
                    v = [float(x) for x in F.rng.normal(size=3)]; cs = cs.shiftLocal(v)
                else:
                    v = float(F.rng.normal()); cs = cs.rotateLocal((batoid.RotX if k == 'rotX' else batoid.RotY)(v))
                e['where'].append({'k': k, 'v': nums(v) if k == 'shift' else nums([v])})
            kw['coordSys'] = cs
            if F.rng.integers(2):
                n = float(F.rng.uniform(1, 2))
                kw['inMedium'] = batoid.ConstMedium(n); e['around'] = [{'k': 'const', 'p': [num(n)]}]
        before = text(d)
        if s['how'] == 'yaml':
            with tempfile.TemporaryDirectory() as tmp:
                p = os.path.join(tmp, 'scope.yaml')
                yaml.safe_dump({'opticalSystem': d}, open(p, 'w'), sort_keys=False)
                o = batoid.Optic.fromYaml(p)
                o2 = batoid.Optic.fromYaml(p)
        else:
            o = batoid.parse.parse_optic(d, **kw)
            e['kept'] = text(d) == before
            o2 = batoid.parse.parse_optic(d, **kw)
        e['twice'] = bool(o == o2) and repr(o) == repr(o2) and seen(o) == seen(o2)
        e['o'] = seen(o)
    except Exception as ex:
        e['exc'] = exc_text(ex)
        e['trace'] = traceback.format_exc()[-700:]
    log.put(e)
log.close()
