"""Evaluates sag and normal of real surfaces in every calling form."""
import pickle
from vlib.surf import *
scen, log, argv = args()


def forms(s, x, y, rng):
    n = len(x)
    out = []

    def put(name, z, nn, shape):
        z, nn = np.asarray(z, float), np.asarray(nn, float)
        ok = z.shape == shape and nn.shape == shape + (3,)
        out.append({'name': name, 'z': nums(z), 'n': mat(nn.reshape(-1, 3)), 'shape': bool(ok)})
    put('scalars', [s.sag(float(a), float(b)) for a, b in zip(x, y)], [s.normal(float(a), float(b)) for a, b in zip(x, y)], (n,))
    put('lists', s.sag(list(x), list(y)), s.normal(list(x), list(y)), (n,))
    put('array', s.sag(x, y), s.normal(x, y), (n,))
    bx, by = np.full(3 * n, 9.0), np.full(3 * n, 9.0)
    bx[::3], by[::3] = x, y
    put('strided', s.sag(bx[::3], by[::3]), s.normal(bx[::3], by[::3]), (n,))
    put('reversed', s.sag(x[::-1], y[::-1])[::-1], s.normal(x[::-1], y[::-1])[::-1], (n,))
    put('among thousands', bulk(s.sag, rng, s.sag(x, y), x, y), bulk(s.normal, rng, s.normal(x, y), x, y), (n,))
    m = n - n % 2
    for order in 'CF':
        X, Y = np.array(x[:m].reshape(2, -1), order=order), np.array(y[:m].reshape(2, -1), order=order)
        z, nn = s.sag(X, Y), s.normal(X, Y)
        f = lambda a: a
        ok = z.shape == X.shape and nn.shape == X.shape + (3,)
        z = np.concatenate([np.asarray(z).ravel(), [s.sag(a, b) for a, b in zip(x[m:], y[m:])]])
        nn = np.concatenate([np.asarray(nn).reshape(-1, 3), np.array([s.normal(a, b) for a, b in zip(x[m:], y[m:])]).reshape(-1, 3)])
        out.append({'name': '2d ' + order, 'z': nums(z), 'n': mat(nn), 'shape': bool(ok)})
    # mixed orders and transposes
    X, Y = np.array(x[:m].reshape(2, -1), order='C'), np.array(y[:m].reshape(2, -1), order='F')
    if m == n:
        put_z, put_n = s.sag(X.T, Y.T), s.normal(X.T, Y.T)
        out.append({'name': 'transposed', 'z': nums(put_z.T), 'n': mat(np.transpose(put_n, (1, 0, 2)).reshape(-1, 3)), 'shape': put_n.shape == X.T.shape + (3,)})
    return out


for q in scenarios(scen):
    rng = np.random.default_rng([SEED, q['id'], 20])
    log.current(q)
    s, rec, lim = build(q['s'], rng, float(q['scale']))
    if q['pickle']: s = pickle.loads(pickle.dumps(s))
    n = q['np']
    th, r = rng.uniform(0, 2 * np.pi, n), lim * np.sqrt(rng.uniform(0, 1, n)) * (2.5 if q['far'] else 1)
    x, y = r * np.cos(th), r * np.sin(th)
    if q['s']['neg']: x[0] = 0.0
    if q['s']['origin']: y[1] = 0.0
    x[2] = y[2] = 0.0
    if q['s']['int']: x[3] = y[3] = min(1.0, float(q['scale']))
    e = {'id': q['id'], 'tag': {'tilt': 'Tilted'}.get(rec['k'], ''), 's': rec, 'p': [[num(a), num(b)] for a, b in zip(x, y)], 'exc': ''}
    try: e['forms'] = forms(s, x, y, rng)
    except Exception as ex: e['exc'] = exc_text(ex)
    log.put(e)
log.close()
