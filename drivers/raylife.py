"""Runs the operation sequences of RayLifeGen on bundles of real rays."""
from vlib.tree import *
scen, log, argv = args()


def system(rng):
    t = {'n': 'S', 'k': 'C', 'skip': False, 'items': [
        {'n': 'a', 'k': 'RMB'[int(rng.integers(3))], 'skip': False, 'items': []},
        {'n': 'L', 'k': 'L', 'skip': False, 'items': [{'n': 'b', 'k': 'R', 'skip': False, 'items': []}, {'n': 'c', 'k': 'R', 'skip': False, 'items': []}]},
        {'n': 'd', 'k': 'SMB'[int(rng.integers(3))], 'skip': False, 'items': []}]}
    return Builder(rng).build(t)


def step(o, rv, rng):
    """Returns (rays after, coefficient of the coating, what was done)."""
    op = o['op']
    c = None if o['coat'] == 'none' else float(o['coat'])
    coat = None if c is None else (batoid.SimpleCoating(c, .5) if op == 'refl' or (op == 'split' and o['side'] == 'b') else batoid.SimpleCoating(.5, c))
    s = surface(rng, [o['surf']])
    cs = {'own': rv.coordSys, 'none': None,
          'new': batoid.CoordSys(rng.normal(size=3) * [.1, .1, 1], batoid.RotX(float(rng.normal() * .2)) @ batoid.RotY(float(rng.normal() * .2)))}[o['cs']]
    kw = {} if o['cs'] == 'none' else {'coordSys': cs}
    if coat is not None and op != 'split': kw['coating'] = coat
    m1, m2 = batoid.ConstMedium(1.0), [VAC, BK7, batoid.ConstMedium(1.7), batoid.ConstMedium(1.2)][int(rng.integers(4))]
    meth = o['via'] == 'meth'
    if op == 'int': out = s.intersect(rv, **kw) if meth else batoid.intersect(s, rv, **kw)
    elif op == 'refl': out = s.reflect(rv, **kw) if meth else batoid.reflect(s, rv, **kw)
    elif op == 'refr': out = s.refract(rv, m1, m2, **kw) if meth else batoid.refract(s, rv, m1, m2, **kw)
    elif op == 'split':
        a, b = s.rSplit(rv, m1, m2, coat, **kw) if meth else batoid.rSplit(s, rv, m1, m2, coat, **kw)
        out = a if o['side'] == 'a' else b
    elif op == 'screen':
        scr = batoid.Zernike(rng.normal(size=5) * 1e-3, R_outer=2.0)
        out = s.refractScreen(rv, scr, **kw) if meth else batoid.trace.refractScreen(s, rv, scr, **kw)
    elif op == 'obsc':
        ob = obscuration(rng) or batoid.ObscCircle(.3)
        out = ob.obscure(rv) if meth else batoid.obscure(ob, rv)
    elif op == 'trace':
        S = system(rng)
        out = S.trace(rv, reverse=bool(o['side'] == 'b'))
    elif op == 'frame':
        to = cs if cs is not None else G
        if meth: out = rv.toCoordSys(to)
        elif o['side'] == 'a': out = batoid.applyForwardTransform(batoid.CoordTransform(rv.coordSys, to), rv)
        else: out = batoid.applyReverseTransform(batoid.CoordTransform(to, rv.coordSys), rv)
    elif op == 'prop': out = rv.propagate(float(rng.normal()))
    elif op == 'read':
        rv.phase([0, 0, 1], 0.5); rv.amplitude([0, 0, 1], .5); rv.sumAmplitude([0, 0, 1], .5); rv.positionAtTime(2.0)
        rv.r; rv.v; rv.k; rv.omega; repr(rv); rv == rv.copy(); rv[0]; rv[1:3]; len(rv); rv.kx
        out = rv
    return out, '1' if c is None else o['coat']


for s in scenarios(scen):
    rng = np.random.default_rng([SEED, s['id'], 5])
    log.current(s)
    rv = bundle(rng, 12)
    ev = []
    for o in s['ops']:
        a = rays(rv)
        try:
            rv, c = step(o, rv, rng)
        except Exception as ex:
            ev.append({'op': o['op'], 'exc': exc_text(ex)})
            break
        ev.append({'op': o['op'], 'exc': '', 'a': a, 'b': rays(rv), 'c': c})
    log.put({'id': s['id'], 'ev': ev})
log.close()
