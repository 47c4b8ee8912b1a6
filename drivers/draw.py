"""Draws systems on axes that only record, and logs what was put there."""
import contextlib, io
from vlib.tree import *
from vlib import surf
scen, log, argv = args()
CLS = {'M': batoid.Mirror, 'R': batoid.RefractiveInterface, 'B': batoid.Baffle, 'D': batoid.Detector}
TYPE = dict(CLS, S=batoid.OPDScreen, L=batoid.Lens)


class Ax:
    """A matplotlib or plotly stand-in."""
    def __init__(self): self.calls = []
    def plot(self, *a, **kw): self.calls.append(('plot', [np.array(v, float) for v in a], kw))
    def fill(self, *a, **kw): self.calls.append(('fill', [np.array(v, float) for v in a], kw))
    def text(self, *a, **kw): self.calls.append(('text', a, kw))
    def add_scatter3d(self, x, y, z, **kw): self.calls.append(('scatter3d', [np.array(v, float) for v in (x, y, z)], kw))


def obsc(rng, shape, lim):
    ro = float(rng.uniform(.3, .95) * lim)
    ri = float(rng.uniform(.1, .8) * ro)
    r = {'rin': num(0.0), 'rout': num(ro)}
    if shape == 'circle': return batoid.ObscCircle(ro), r
    if shape == 'negcircle': return batoid.ObscNegation(batoid.ObscCircle(ro)), r
    r['rin'] = num(ri)
    if shape == 'annulus': return batoid.ObscAnnulus(ri, ro), r
    if shape == 'negannulus': return batoid.ObscNegation(batoid.ObscAnnulus(ri, ro)), r
    r = {'rin': num(0.0), 'rout': num(0.0)}
    if shape == 'rect': return batoid.ObscRectangle(ro, ri), r
    if shape == 'negrect': return batoid.ObscNegation(batoid.ObscRectangle(ro, ri)), r
    if shape == 'union': return batoid.ObscUnion([batoid.ObscCircle(ro), batoid.ObscRectangle(ro, ri)]), r
    return None, r


class Make:
    def __init__(self, rng, straight):
        self.rng, self.straight, self.z, self.info = rng, straight, 0.0, {}

    def build(self, t, m1=VAC, m2=VAC):
        rng = self.rng
        if t['k'] in 'CL':
            cs = G if self.straight else batoid.CoordSys(rng.normal(size=3), rot_random(rng))
            glass = batoid.ConstMedium(1.5) if t['k'] == 'L' else VAC
            items = [self.build(c, VAC if j == 0 else glass, glass if j == 0 and t['k'] == 'L' else VAC) for j, c in enumerate(t['items'])]
            return (batoid.Lens if t['k'] == 'L' else batoid.CompoundOptic)(items, name=t['n'], coordSys=cs, skip=t['skip'])
        lim = 0.0
        while lim < .05:   # a surface with a vertex, and something around it, to draw
            s, rec, lim = surf.build(dict(t['s'], k='asph') if t['s']['k'] == 'brim' else t['s'], rng, mild=True)
        if t['s']['k'] == 'brim' and t['o']['shape'] in ('circle', 'negcircle', 'annulus', 'negannulus'):
            # as high at the outer rim as at the vertex: r^2 / 2R - r^4 / (2R ro^2), in numbers without rounding
            ro, R, ri = 2.0 ** rng.integers(-2, 2), 1.0 * rng.choice([-1, 1]), .25 * rng.integers(1, 3)
            R *= ro * 2.0 ** rng.integers(2, 4)
            co = [float(-1 / (2 * R * ro ** 2))]
            s, rec, ri = batoid.Asphere(R, -1.0, co), {'k': 'asph', 'R': num(R), 'c': num(-1.0), 'co': nums(co), 'imin': 2}, float(ri * ro)
            ann = 'annulus' in t['o']['shape']
            o = batoid.ObscAnnulus(ri, ro) if ann else batoid.ObscCircle(ro)
            if t['o']['shape'][:3] == 'neg': o = batoid.ObscNegation(o)
            r = {'rin': num(ri if ann else 0.0), 'rout': num(ro)}
        else:
            o, r = obsc(rng, t['o']['shape'], lim)
        cs = batoid.CoordSys([float(rng.normal() * .1), 0.0, self.z]) if self.straight else \
            batoid.CoordSys([*(rng.normal(size=2) * .05), self.z], batoid.RotX(float(rng.normal() * .1)) @ batoid.RotY(float(rng.normal() * .1)) @ batoid.RotZ(float(rng.uniform(-3, 3))))
        self.z -= float(rng.uniform(.5, 1.5))
        self.info[t['n']] = dict(s=rec, o=dict(t['o'], **r))
        kw = dict(name=t['n'], coordSys=cs, obscuration=o, skip=t['skip'])
        if t['k'] == 'S':
            m = m1 if m1 != VAC else m2
            return batoid.OPDScreen(s, batoid.Zernike(rng.normal(size=5) * 1e-4, R_outer=2.0), inMedium=m, outMedium=m, **kw)
        return CLS[t['k']](s, inMedium=m1, outMedium=m2, **kw)


def thin(c):
    """Points of a curve: all when few, else nine with both ends."""
    c = np.atleast_2d(np.array(c, float)).T
    if len(c) > 9: c = c[np.round(np.linspace(0, len(c) - 1, 9)).astype(int)]
    return [nums(p) for p in c]


def split(mesh):
    """Curves of a mesh, which nan separates."""
    if mesh is None: return []
    a = np.array(mesh, float)
    out, cur = [], []
    for col in a.T:
        if np.isnan(col).any():
            if cur: out.append(np.array(cur).T)
            cur = []
        else: cur.append(col)
    if cur: out.append(np.array(cur).T)
    return [thin(c) for c in out]


def drawn3(o, tint, plotly):
    ax = Ax()
    kw = {tint: 'k'}
    if plotly: o.draw3d(ax, plotly=True, **kw)
    else: o.draw3d(ax, **kw)
    return {'curves': [thin(c[1]) for c in ax.calls], 'kw': all(c[0] == ('scatter3d' if plotly else 'plot') and c[2] == kw for c in ax.calls)}


def mesh(o):
    return {'curves': split(o.get3dmesh()), 'kw': True}


def flat(a): return [nums(p) for p in np.array(a, float).T]


def describe(o, info):
    inner = isinstance(o, batoid.CompoundOptic)
    d = {'n': o.name, 'k': ('L' if isinstance(o, batoid.Lens) else 'C') if inner else {v: k for k, v in TYPE.items()}[type(o)],
         'skip': bool(o.skip), 'f': frame(o.coordSys), 'items': [describe(c, info) for c in o.items] if inner else [],
         'o': {'shape': 'none', 'rin': '0', 'rout': '0'} if inner else info[o.name]['o'], 's': {'k': 'plane'} if inner else info[o.name]['s']}
    return d


def walk(o):
    return [l for c in o.items for l in walk(c)] if isinstance(o, batoid.CompoundOptic) else [o]


def lenses(o):
    if isinstance(o, batoid.Lens): return [o]
    return [l for c in o.items for l in lenses(c)] if isinstance(o, batoid.CompoundOptic) else []


def strokes2(ax):
    return [{'w': c[0], 'p': flat(c[1])} for c in ax.calls if c[0] != 'text']


for q in scenarios(scen):
    rng = np.random.default_rng([SEED, q['id'], 25])
    log.current(q)
    M = Make(rng, q['frames'] == 'straight')
    sys_ = M.build(q['tree'])
    base = {'id': q['id'], 'exc': '', 'only': q['only'], 'nslice': q['nslice'], 'straight': q['frames'] == 'straight'}
    try:
        if q['move'] == 'shift': sys_ = sys_.withGlobalShift([.1, 0.0, -.7])
        if q['move'] == 'turn':
            for l in walk(sys_)[:1]: l.R_outer           # cached values must not go stale
            sys_ = sys_.withLocalRotation(batoid.RotZ(.4) @ batoid.RotX(.2)); base['straight'] = False
        if q['move'] == 'part' and walk(sys_):
            nm = walk(sys_)[-1].name
            sys_ = sys_.withLocallyShiftedOptic(nm, [.05, 0.0, .2])
        leaves = walk(sys_)
        tree = describe(sys_, M.info)
        e = dict(base, k='solid', tree=tree)
        e['each'] = [[drawn3(l, q['tint'], False), drawn3(l, q['tint'], True), mesh(l)] for l in leaves]
        e['whole'] = [drawn3(sys_, q['tint'], False), drawn3(sys_, q['tint'], True), mesh(sys_)]
    except Exception as ex:
        e = dict(base, k='solid', exc=exc_text(ex))
    log.put(e)
    if e['exc']: continue
    e = dict(base, k='flat', tree=tree)
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            e['slices'] = [[flat(s) for s in (l.getXZSlice(q['nslice']) if q['nslice'] else l.getXZSlice())] for l in leaves]
            e['plain'] = [[flat(s) for s in l.getXZSlice()] for l in leaves]
            ts = [TYPE[k] for k in q['only']]
            kw = {} if not ts else {'only': ts[0] if len(ts) == 1 and q['label'] else (list(ts) if q['form'] == 'list' else tuple(ts))}
            ax = Ax()
            sys_.draw2d(ax, **{q['tint']: 'b'}, **kw)
            e['strokes'] = strokes2(ax)
            e['kw'] = all(c[2] == {q['tint']: 'b'} for c in ax.calls)
            e['lens'] = []
            if all(len(l.items) == 2 for l in lenses(sys_)):
                for l in [sys_] + lenses(sys_):
                    ax = Ax()
                    lab = dict(labelpos=.25, fontdict={'size': 3}) if q['label'] and l is not sys_ else {}
                    l.draw2d(ax, only=batoid.Lens, fc='c', **lab)
                    txt = [c for c in ax.calls if c[0] == 'text']
                    e['lens'].append({'n': l.name, 'strokes': strokes2(ax), 'kw': all(c[2] == {'fc': 'c'} for c in ax.calls if c[0] != 'text'),
                                      'labels': bool(lab), 'text': [{'x': num(c[1][0]), 'z': num(c[1][1]), 's': str(c[1][2])} for c in txt]})
        except Exception as ex:
            e['exc'] = exc_text(ex)
    log.put(e)
    rv = bundle(rng, 7)
    e = dict(base, k='rays')
    try:
        tf = sys_.traceFull(rv, reverse=q['rev'])
        ents = [{'key': k, 'in': rays(v['in']), 'out': rays(v['out'])} for k, v in tf.items()]
        if ents:
            a = int(rng.integers(0, len(ents))); b = int(rng.integers(a, len(ents)))
            kw = {}
            if a: kw['start'] = ents[a]['key']
            if b < len(ents) - 1: kw['end'] = ents[b]['key']
            e['ents'] = ents[a:b + 1]
            e['lines'] = []
            for how in ('3', 'p', '2'):
                ax = Ax()
                if how == '2':
                    batoid.drawTrace2d(ax, tf, *([kw['start']] if 'start' in kw else []), **{k: v for k, v in kw.items() if k != 'start'}, c='k')
                    ls = [np.stack([c[1][j], c[1][j + 1]]) for c in ax.calls for j in range(0, len(c[1]), 2)]
                else:
                    batoid.drawTrace3d(ax, tf, plotly=how == 'p', c='k', **kw)
                    ls = [np.stack(c[1]) for c in ax.calls]
                e['lines'].append({'dim': 2 if how == '2' else 3, 'l': [flat(l) for l in ls], 'kw': all(c[0] == ('scatter3d' if how == 'p' else 'plot') and c[2] == {'c': 'k'} for c in ax.calls)})
            log.put(e)
    except Exception as ex:
        e['exc'] = exc_text(ex)
        log.put(e)
log.close()
