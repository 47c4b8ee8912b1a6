"""Propagates, moves and copies real rays, then asks for positions, phases and amplitudes."""
import pickle
from vlib.tree import *
scen, log, argv = args()


def start(s, rng):
    n, sc = s['n'], float(s['scale'])
    p = rng.normal(size=(n, 3)) * sc
    d = rng.normal(size=(n, 3)); d /= np.linalg.norm(d, axis=1)[:, None]
    v = d / rng.choice([1.0, 1.33, 1.7, .8], size=n)[:, None]
    w = {'optical': rng.uniform(3e-7, 1e-6, n), 'long': rng.uniform(1, 50, n), 'unit': np.ones(n), 'xray': rng.uniform(1e-10, 1e-9, n),
         'mixed': 10.0 ** rng.uniform(-8, 1, n)}[s['w']]
    t, f = rng.normal(size=n) * sc, rng.uniform(0, 3, n)
    if s['exact']:
        p, v = np.round(p), rng.integers(-2, 3, (n, 3)) + np.array([0, 0, 5.0])
        t, f = np.round(t), np.round(f * 4) / 4
    k = {'none': 2.0, 'some': .35, 'all': -1.0}[s['flags']]
    fail = rng.uniform(size=n) > k + .3
    vig = (rng.uniform(size=n) > k) | (fail & (rng.uniform(size=n) > .2))
    cs = G if s['cs'] == 'global' else batoid.CoordSys(rng.normal(size=3) * sc, rot_random(rng))
    return batoid.RayVector(p[:, 0], p[:, 1], p[:, 2], v[:, 0], v[:, 1], v[:, 2], t, w, f, vig, fail, cs)


def number(how, x, rv):
    if how == 'int': return int(round(x))
    if how == 'np': return np.float64(x)
    if how == 'zero': return 0
    if how in ('same', 'own') and len(rv): return float(rv.t[0])
    if how == 'far': return x * 1e4
    return float(x)


def act(o, rv, rng, sc):
    """Returns (rays, record of what was done)"""
    a = rays(rv)
    if o['op'] == 'prop':
        t = number(o['how'], float(rng.normal() * sc), rv)
        out = rv.propagate(t)
        if out is not rv: raise AssertionError('propagate returned another object')
        return rv, {'op': 'prop', 't': num(t), 'a': a, 'b': rays(rv)}
    if o['op'] == 'frame':
        cs = batoid.CoordSys(rng.normal(size=3) * sc, rot_random(rng)) if o['how'] != 'zero' else G
        if o['how'] == 'same': cs = batoid.CoordSys(rv.coordSys.origin, rot_random(rng))
        if o['via'] == 'meth': out = rv.toCoordSys(cs)
        elif o['via'] == 'fn': out = batoid.applyForwardTransform(batoid.CoordTransform(rv.coordSys, cs), rv)
        else: out = batoid.applyReverseTransform(batoid.CoordTransform(cs, rv.coordSys), rv)
        return out, {'op': 'frame', 'cs': frame(cs), 'a': a, 'b': rays(out)}
    if o['op'] == 'copy': out = rv.copy()
    elif o['op'] == 'pickle': out = pickle.loads(pickle.dumps(rv))
    elif o['op'] == 'slice': out = rv[:]
    else:
        k = int(rng.integers(0, len(rv) + 1))
        out = batoid.concatenateRayVectors([rv[:k], rv[k:]]) if len(rv) > 1 else rv.copy()
    return out, {'op': 'copy', 'a': a, 'b': rays(out)}


def ask(q, rv, rng, sc):
    r = rng.normal(size=3) * sc
    if q['r'] == 'ray' and len(rv): r = np.array(rv.r[0])
    if q['r'] == 'far': r = r * 1e4
    if q['r'] == 'ints': r = np.round(r).astype(int)
    if not np.all(np.isfinite(r)): r = np.zeros(3)
    arg = {'list': list, 'tuple': tuple}.get(q['r'], lambda x: x)(r)
    t = number(q['t'], float(rng.normal() * sc), rv)
    e = {'what': q['what'], 'r': nums(r), 't': num(t), 'ign': q['ign'] != 'no'}
    if q['what'] == 'phase': e['out'] = nums(rv.phase(arg, t))
    elif q['what'] == 'amp': e['out'] = [[num(z.real), num(z.imag)] for z in rv.amplitude(arg, t)]
    elif q['what'] == 'pos': e['out'] = mat(rv.positionAtTime(t))
    else:
        kw = {'default': {}, 'yes': {'ignoreVignetted': True}, 'no': {'ignoreVignetted': False}, 'kw': {'ignoreVignetted': 1}}[q['ign']]
        z = rv.sumAmplitude(arg, t, **kw) if rng.integers(2) or not kw else rv.sumAmplitude(arg, t, bool(kw['ignoreVignetted']))
        e['out'] = [num(z.real), num(z.imag)]
    return e


import batoid.global_vars
for s in scenarios(scen):
    rng = np.random.default_rng([SEED, 2100, s['id']])
    log.current(s)
    rv = start(s, rng)
    e = {'id': s['id'], 'tag': '', 'exc': '', 'a0': rays(rv), 'ev': [], 'ask': [], 'whole': True}
    batoid.global_vars._batoid_max_threads = s['threads']
    try:
        for o in s['ops']:
            rv, ev = act(o, rv, rng, float(s['scale']))
            e['ev'].append(ev)
        e['b'] = rays(rv)
        e['ask'] = [ask(q, rv, rng, float(s['scale'])) for q in s['asks']]
        e['k'] = {'k': mat(rv.k), 'kc': mat(np.array([rv.kx, rv.ky, rv.kz]).T), 'omega': nums(rv.omega), 'v': mat(rv.v), 'r': mat(rv.r)}
        e['after'] = rays(rv)
    except Exception as ex:
        e['exc'] = exc_text(ex)
        e['trace'] = traceback.format_exc()[-700:]
    log.put(e)
log.close()
